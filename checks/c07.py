import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C07", "random certificate data (serial numbers over all 64 bits, up to six name attributes with values up to their limits and repeated, validity by offsets and absolute dates, all constraint forms, EC and RSA keys, invalid data of each kind), generated, re-signed under random CAs (also certificates with further extensions), read back and written to files; every case is non-trivial",
          assumptions=["OpenSSL parses certificates rightly", "name values are UTF-8 text"])
c.build([{"name": "h", "kind": "asan", "harness": ["c07_certs.cpp"], "groups": ["core"]}])
c.stage("certs", "h", c.scale(6000, 200000))
c.finish(require={"generated-ec": 2000, "generated-rsa": 300, "re-signed": 2500, "bad-refused": 800, "files": 300, "device-serial-read": 1000, "issuer-text-simple": 500, "names-utf8": 500, "validity-zoned": 100, "rsa-keys": 40})
