import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C04", "random histories of 3..40 set/clear/copy operations, valid and invalid, on two vouchers with all attributes read back after every step; non-trivial: at least one overwrite or refused operation", assumptions=["zero-length non-NULL byte arrays are not used as values"])
c.build([{"name": "h", "kind": "asan", "harness": ["c04_record.cpp"], "groups": ["core"]}])
c.stage("main", "h", c.scale(12000, 400000))
c.finish(require={"operations": 100000, "overwrites": 10000, "refused_operations": 10000, "serialized_forms": 3000})
