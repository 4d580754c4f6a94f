import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C02", "well-formed documents in any order and spacing, near misses of every kind (root name, root position, attribute names, assertions, dates, booleans, base64, nested values, long serials), every proper prefix of documents, and random damage; each judged by a reference reader; non-trivial: the reference specifies the verdict",
          assumptions=["documents outside strict JSON, with escaped member names, duplicate attributes or extra root members are not judged (only checked for memory safety)"])
c.build([{"name": "h", "kind": "asan", "harness": ["c02_parse.cpp"], "groups": ["core"]}])
c.stage("parse", "h", c.scale(32000, 1200000))
c.finish(require={"must_accept:well-formed": 3000, "must_reject:prefix": 20000, "must_reject:unknown attribute": 1500, "must_reject:no root member": 1500,
                  "must_reject:not a scalar": 1000, "must_reject:malformed date": 800, "must_accept:longest-serial": 1000})
