import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C15", "histories of enrolments by peers and for certificates with hostile names, serial numbers and sizes, mixed with rejected ones, sequentially (the log compared before and after each) from many threads at once (the log compared as a multiset) and from several registrar processes with one log; non-trivial: every sequential request, concurrent histories with at least two accepted enrolments",
          assumptions=["the log file can be written", "a device whose serial number is the text NULL is logged like one without (the documented format)"])
c.build([{"name": "h", "kind": "asan", "harness": ["c15_enrol.cpp"], "groups": ["core", "api"]},
         {"name": "t", "kind": "tsan", "harness": ["c15_enrol.cpp"], "groups": ["core", "api"]}])
c.stage("sequential", "h", c.scale(900, 20000))
c.stage("concurrent", "h", c.scale(200, 6000), opts={"mode": "concurrent"}, shards=6)
c.stage("several registrars", "h", c.scale(32, 400), opts={"mode": "processes"})
c.stage("concurrent, race detector", "t", c.scale(80, 2000), opts={"mode": "concurrent"}, shards=4)
c.finish(require={"intermediate issuing CA": 20, "good:200": 1000, "enrolments by several registrars": 1000, "line-checked": 2000, "concurrent:switches between threads in the log": 500, "unprintable name:400": 50, "junk:400": 50, "line with a serial number over 64 bits": 100})
