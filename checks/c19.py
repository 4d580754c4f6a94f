import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C19", "random servers of the HTTPS layer with up to 7 concurrent raw TLS clients, its own clients against these servers and against servers with wrong certificates or broken replies, servers that cannot start, and the real registrar and MASA servers; the logs of handlers and clients are matched by request id; non-trivial: every request",
          assumptions=["multipart and form bodies, header values with percent escapes and methods the vendored HTTP library does not route are not judged", "a request which gets no reply is repeated up to three times on new connections before it counts as lost"])
W = ["-Wl,--wrap=listen", "-Wl,--wrap=fopen"]
G = ["core", "api", "http"]
c.build([{"name": "h", "kind": "asan", "harness": ["c19_wire.cpp"], "groups": G, "link": W},
         {"name": "t", "kind": "tsan", "harness": ["c19_wire.cpp"], "groups": G, "link": W}])
for mode, quick, thorough in (("served", 240, 8000), ("both", 160, 5000), ("pinned", 400, 12000), ("faulty", 300, 8000), ("start", 240, 4000), ("real", 200, 5000)):
    c.stage(mode, "h", c.scale(quick, thorough), opts={"mode": mode}, hang_s=200)
c.stage("served, race detector", "t", c.scale(48, 1500), opts={"mode": "served"}, hang_s=200)
c.stage("both, race detector", "t", c.scale(32, 1000), opts={"mode": "both"}, hang_s=200)
c.finish(require={"requests delivered and answered": 1000, "requests for what is not served": 200, "requests between both ends": 100})
