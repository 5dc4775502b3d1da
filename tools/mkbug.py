"""mkbug(id, prop, [(file, old, new)...], needs, breaks, demo C++ body): writes seeded/<id>/ ; the change is made in a scratch copy."""
import json, os, subprocess, shutil, tempfile
V = "/verif/seeded"
DEMO = '''#!/bin/bash
set -e
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ {flags} -DC4_NO_DEBUG_BREAK -w -I src "$here/demo.cpp" src/c4/*.cpp -o "$d/demo" {libs}
timeout 100 "$d/demo"
'''
def mkbug(id, prop, edits, needs, breaks, demo, flags="-std=c++17 -O1", libs=""):
    d = tempfile.mkdtemp(prefix="mkbug")
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", d + "/r"])
    r = d + "/r"
    for f, old, new in edits:
        s = open(f"{r}/{f}").read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(f"{r}/{f}", "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", r, "diff"], text=True)
    assert diff
    o = f"{V}/{id}"; os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.sh", "w").write(DEMO.format(flags=flags, libs=libs))
    open(o + "/demo.cpp", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
