import sys, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "lib"))
from driver import Check
c = Check("C17", "for generated inputs of every operation: one run without a fault, then one run for every allocation and OpenSSL call it makes (and every documented way for it to fail) with just that call failing; each must report failure or give the result of the run without a fault, under the sanitizers, with the memory left behind followed; refusing operations must go on refusing; non-trivial: every run with a fault",
          level="fault_enumeration",
          assumptions=["calls fail in the ways their documentation allows; allocations inside OpenSSL and the C++ runtime do not fail", "one fault at a time"])
fns = re.findall(r"^W[12]\([^,]*?, (\w+), ", open(os.path.join(HERE, "..", "harness", "faults.hpp")).read(), re.M)
fns += ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
c.build([{"name": "h", "kind": "asan", "harness": ["c17_faults.cpp"], "groups": ["core", "api"], "link": ["-Wl,--wrap=" + f for f in fns]}])
c.stage("faults", "h", c.scale(96, 1600), hang_s=90)
c.finish(require={"faults": 10000, "reported": 8000, "operations that succeed": 500, "operations that refuse": 100})
