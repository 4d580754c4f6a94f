import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C08", "random forests of 2-8 certificates with names from a small set, other keys under the same name, forged and altered members, verified with complete, incomplete and random lists and stores in any order; ground truth by testing every signature; every call is non-trivial",
          assumptions=["OpenSSL's single-signature check is right", "where two supplied certificates share a name, or a path needs a certificate that is no CA, only wrong acceptance is judged"])
c.build([{"name": "h", "kind": "asan", "harness": ["c08_chain.cpp"], "groups": ["core"]}])
c.stage("chains", "h", c.scale(2400, 60000))
c.finish(require={"accepted:store:depth1": 100, "accepted:list:depth1": 100, "accepted:list:depth2": 30, "refused:look-alike-or-broken": 500, "refused:unrelated": 500, "recycled-lists": 3000})
