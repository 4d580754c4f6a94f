import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C20", "histories of sessions of the real command-line pledge (up to 4 at once) with the real registrar and MASA, through hops which know every TLS key and change, swap, replay, withhold or sign anew what passes; what each pledge was really sent is judged independently and compared to its exit status and output; also all three as processes of the tool; non-trivial: every session",
          assumptions=["an honest session which fails is repeated up to twice before it counts (busy machine)", "an enrolled certificate need not be issued by the pinned certificate's key unless all are honest", "unusual spellings of base64 and status codes below 400 other than 200 are open"])
W = ["-Wl,--wrap=listen", "-Wl,--wrap=fopen"]
c.build([{"name": "cli", "kind": "asan", "harness": ["cli_wrap.cpp"], "groups": ["core", "api", "http", "cli"], "link": W},
         {"name": "h", "kind": "asan", "harness": ["c20_e2e.cpp"], "groups": ["core", "api", "http"], "link": W}])
o = {"cli": c.bins["cli"]}
c.stage("sessions", "h", c.scale(240, 6000), opts=dict(o, mode="one"), hang_s=400)
c.stage("processes", "h", c.scale(24, 400), opts=dict(o, mode="processes"), hang_s=400)
c.finish(require={"honest sessions": 100, "sessions which must fail": 100, "three processes, sign": 10})
