import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C09", "random serial numbers, nonces, dates, certificates and keys, given as values and through configurations, each request read back independently; and the same with one part missing, malformed or foreign; every call is non-trivial",
          assumptions=["OpenSSL's CMS signature check is right", "a certificate revocation check value of false counts as no claim"])
c.build([{"name": "h", "kind": "asan", "harness": ["c09_preq.cpp"], "groups": ["core"]}])
c.stage("values", "h", c.scale(1200, 30000))
c.stage("configurations", "h", c.scale(4000, 100000), opts={"mode": "conf"})
c.finish(require={"issued:nonce": 100, "issued:nonceless": 50, "conf-issued:base64": 50, "conf-issued:smime": 50, "conf-now": 50, "refused:key is foreign": 100})
