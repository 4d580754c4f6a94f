import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from driver import Check
c = Check("C18", "generated configuration files (sections and keys in any order, absent, empty, quoted, repeated and long values, comments, near-miss keys, unknown sections, keys of other sections, line ends) and lists of certificate files, good and bad, compared key by key with a reference reading; non-trivial: files with at least two documented keys, certificate lists that are not empty",
          assumptions=["lines of at most 500 bytes (the configuration library cuts longer ones)", "each section once, plain keys once", "values without quotation marks and backslashes inside"])
c.build([{"name": "h", "kind": "asan", "harness": ["c18_config.cpp"], "groups": ["core"]}])
c.stage("files", "h", c.scale(9000, 300000))
c.finish(require={"key repeated": 3000, "key empty": 3000, "key absent": 10000, "unreadable: directory": 10, "unreadable: permission": 10, "long lines": 500, "certificate lists loaded": 300, "certificate lists refused": 300})
