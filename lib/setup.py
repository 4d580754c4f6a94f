"""Checks that the tools the framework needs are there (each check builds what
it needs from /repo's current tree itself)."""
import shutil, subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
missing = [t for t in ("gcc", "g++", "python3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: %s" % missing)
try:
    build.build([{"name": "setup", "kind": "asan", "harness": ["c05_lists.cpp"], "groups": ["core"]}])
except build.BuildError as e:
    sys.exit(str(e))
print("ok")
