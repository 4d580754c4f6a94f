import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C14", "random deployments on disk with one fault or none (request, peer certificate, configured file, MASA behind the registrar); the handler's status, headers, body and outgoing request judged independently; every call is non-trivial",
          assumptions=["which of 400 and 500 answers a registrar whose signing key does not belong to its certificate is not judged", "a MASA that answers 200 is taken at its word by the registrar (the pledge verifies)"])
c.build([{"name": "h", "kind": "asan", "harness": ["c14_status.cpp"], "groups": ["core", "api"]}])
c.stage("registrar", "h", c.scale(4000, 80000))
c.stage("masa", "h", c.scale(3000, 60000), opts={"mode": "masa"})
c.stage("other services", "h", c.scale(300, 3000), opts={"mode": "others"})
c.finish(require={"registrar:200:good": 50, "registrar:502:MASA fails": 50, "registrar-request-checked": 100, "masa:200:good request": 100, "masa:400:serials differ": 20, "masa:good-after-bad": 100})
