#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check compiles from /repo's working tree); verifies that the tools are there."""
import os, shutil, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "evidence", "replays"):
    os.makedirs(os.path.join(here, d), exist_ok=True)
missing = [t for t in ("g++", "clang++") if not shutil.which(t)]
print("setup ok" if not missing else "missing: %s" % missing)
sys.exit(1 if missing else 0)
