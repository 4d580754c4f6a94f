import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C23", "keys, device certificates (the real enrolment with the network replaced) and random buffers made in series by up to 6 processes and 12 threads at one moment of a stopped clock, with the C library's random numbers made constant; everything made in a run is gathered, compared for repetition and its form judged; non-trivial: series of more than one",
          assumptions=["OpenSSL's generator is sound"])
c.build([{"name": "h", "kind": "asan", "harness": ["c23_fresh.cpp"], "groups": ["core", "api"]}])
c.stage("series", "h", c.scale(500, 12000), hang_s=240)
c.finish(require={"made: key": 1500, "made: serial": 800, "made: subject-serial": 800, "made: random": 500, "random buffers": 40, "shards judged for bits": 1, "shards judged for subject serial numbers": 1, "shards judged for buffer bits": 1})
