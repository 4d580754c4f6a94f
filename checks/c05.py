import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C05", "random histories on two byte-array lists, a key/value list, and a pool of four byte arrays, with every element compared after every operation; non-trivial: more than one operation", assumptions=["copy_binary_array is given a destination without content, as documented by its callers"])
c.build([{"name": "h", "kind": "asan", "harness": ["c05_lists.cpp"], "groups": ["core"]}])
c.stage("main", "h", c.scale(24000, 800000))
c.finish(require={"list_operations": 50000, "kv_operations": 50000, "array_operations": 50000, "compared_equal": 1000, "compared_near_miss": 5000})
