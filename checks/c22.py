import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C22", "histories of log calls of every level, with and without errno, of all lengths, mixed with changes of level, quiet, meta data, colour and destination, the captured destinations compared line by line; the process-ending calls in child processes; the same from 2 to 8 threads under an installed lock whose taking and releasing is watched, with disturbances in the middle of a line; non-trivial: histories with both written and suppressed messages, concurrent ones in which threads alternate",
          assumptions=["the destination can be written", "levels and destination are not changed while other threads log"])
W = ["-Wl,--wrap=vfprintf"]
c.build([{"name": "h", "kind": "asan", "harness": ["c22_log.cpp"], "groups": ["core"], "link": W},
         {"name": "t", "kind": "tsan", "harness": ["c22_log.cpp"], "groups": ["core"], "link": W}])
c.stage("sequential", "h", c.scale(6000, 200000))
c.stage("concurrent", "h", c.scale(400, 10000), opts={"mode": "concurrent"}, shards=4)
c.stage("concurrent, race detector", "t", c.scale(200, 5000), opts={"mode": "concurrent"}, shards=4)
c.finish(require={"written": 20000, "suppressed": 10000, "switches between threads": 3000, "ending": 150})
