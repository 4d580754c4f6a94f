import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C13", "random histories of good and bad requests to both servers (with configuration files missing during some of them), served one after another or by several threads at once with injected delays; each reply and each request passed on compared, in a normal form without moments and random signature bits, with the one of a freshly started process; non-trivial: every request after the first of its history",
          assumptions=["replies are compared by status, headers, voucher content, signers and carried certificates or, for enrolment, the to-be-signed certificate"])
L = ["-Wl,--wrap=fopen"]
c.build([{"name": "h", "kind": "asan", "harness": ["c13_history.cpp"], "groups": ["core", "api"], "link": L},
         {"name": "t", "kind": "tsan", "harness": ["c13_history.cpp"], "groups": ["core", "api"], "link": L}])
c.stage("sequential", "h", c.scale(200, 4000))
c.stage("concurrent", "h", c.scale(150, 3000), opts={"mode": "concurrent"}, shards=4)
c.stage("concurrent, race detector", "t", c.scale(100, 2000), opts={"mode": "concurrent"}, shards=4)
c.stage("long-lived", "h", c.scale(32, 640), opts={"mode": "long"})
c.finish(require={"requests in long histories": 10000, "registrar -> 200": 100, "registrar -> 400": 100, "MASA -> 200": 100, "MASA -> 400": 100, "enrolment -> 200": 50, "requests begun while another was served": 500})
