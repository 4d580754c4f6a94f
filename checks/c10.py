import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C10", "random pledge requests with zero to two deviations (attributes missing, near-equal or additional, spoiled documents), signed by the pledge, an impostor of the same names or others, against many trust configurations; issued exactly when the independent judgement says so, and read back independently; every call is non-trivial",
          assumptions=["OpenSSL's CMS and certificate signature checks are right", "only certificates carried in the message serve as intermediates; two trusted certificates of one name are not judged"])
c.build([{"name": "h", "kind": "asan", "harness": ["c10_rreq.cpp"], "groups": ["core"]}])
c.stage("requests", "h", c.scale(8000, 300000))
c.build([{"name": "s", "kind": "asan", "harness": ["c14_status.cpp"], "groups": ["core", "api"]}])
c.stage("handler", "s", c.scale(2500, 60000), opts={"mode": "registrar", "judge": "issued"})
c.finish(require={"issued:nonce": 300, "issued:nonceless": 50, "refused:serial differs": 50, "refused:no serial": 20, "refused:pins another certificate": 50, "refused:assertion is not proximity": 50,
                  "refused:untrusted signer": 100, "refused:bad signature": 100})
