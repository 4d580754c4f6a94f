import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C25", "runs of each command of the real tool, with usable and unusable configurations, inputs and places for the output, whose right outcome is known; exit status, standard output and all files in reach are compared; non-trivial: every run",
          assumptions=["an honest exchange which fails is repeated up to twice before it counts (busy machine)", "vouchers of more than 4096 characters on the standard input may be refused", "unusual spellings of base64 are open", "what an output file which could not be written completely contains is open"])
W = ["-Wl,--wrap=listen", "-Wl,--wrap=fopen"]
c.build([{"name": "cli", "kind": "asan", "harness": ["cli_wrap.cpp"], "groups": ["core", "api", "http", "cli"], "link": W},
         {"name": "h", "kind": "asan", "harness": ["c25_tool.cpp"], "groups": ["core", "api", "http"], "link": ["-Wl,--wrap=listen"]}])
c.stage("tool", "h", c.scale(3000, 60000), opts={"cli": c.bins["cli"]}, hang_s=400)
c.finish(require={"epvr to file": 20, "epvr to stdout": 20, "vmasa to file": 20, "vmasa to stdout": 20, "serial numbers read": 50, "fails for its output": 50, "net: good by options": 20, "net: nobody listens where the options say": 5})
