import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C11", "random registrar requests around random pledge requests, either of them deviating in attributes, documents, signatures, signers or nesting, against many trust configurations and policy answers; issued exactly when the independent judgement says so, and read back independently; every call is non-trivial",
          assumptions=["OpenSSL's CMS and certificate signature checks are right", "only certificates carried in the message serve as intermediates; two trusted certificates of one name are not judged"])
c.build([{"name": "h", "kind": "asan", "harness": ["c11_masa.cpp"], "groups": ["core"]}])
c.stage("requests", "h", c.scale(6000, 200000))
c.build([{"name": "s", "kind": "asan", "harness": ["c14_status.cpp"], "groups": ["core", "api"]}])
c.stage("handler", "s", c.scale(2500, 60000), opts={"mode": "masa", "judge": "issued"})
c.finish(require={"issued:nonce": 300, "issued:nonceless": 50, "policy-asked": 500, "refused:serials differ": 50, "refused:no pledge request": 20, "refused:policy refuses": 50, "refused:policy gives nothing": 20,
                  "refused:untrusted signer": 100, "refused:pledge request: untrusted signer": 50, "refused:bad signature": 100, "refused:pledge request: bad signature": 100})
