import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C21", "2 to 8 threads running programs of library operations, configuration loading and request handlers on their own objects and shared read-only inputs, with a thread switch possible at every allocation and clock reading, under the race detector and, apart from it, the address sanitizer; each result compared with the one of the same operation alone; non-trivial: every operation",
          assumptions=["accesses inside libcrypto are not seen by the race detector, results and uses of its functions with static buffers are", "results are compared in a normal form without random bits"])
W = ["-Wl,--wrap=" + f for f in "malloc calloc free time gettimeofday clock_gettime localtime gmtime asctime ctime strtok rand srand ERR_error_string ERR_error_string_n".split()]
c.build([{"name": "t", "kind": "tsan", "harness": ["c21_threads.cpp"], "groups": ["core", "api"], "link": W},
         {"name": "h", "kind": "asan", "harness": ["c21_threads.cpp"], "groups": ["core", "api"], "link": W}])
c.stage("race detector", "t", c.scale(120, 4000))
c.stage("address sanitizer", "h", c.scale(120, 4000))
c.finish(require={"operations overlapping others": 3000, "distinct overlapping pairs of operations, per process": 1000})
