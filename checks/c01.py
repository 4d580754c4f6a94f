import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C01", "case i<2048: that subset of the eleven attributes; then every byte value in a serial number, every binary length 1..256, every serial length 1..127, then random vouchers with values biased to characters that need escaping and to range ends; non-trivial: at least one attribute is set",
          assumptions=["the reference JSON parser, base64 encoder and date formatter in harness/oracle.hpp are right"])
c.build([{"name": "h", "kind": "asan", "harness": ["c01_roundtrip.cpp"], "groups": ["core"]}])
c.stage("roundtrip", "h", c.scale(16000, 600000))
c.finish(require={"documents_parsed_strictly": 10000, "serial_needing_escape": 500, "combination_of_attributes": 2048})
