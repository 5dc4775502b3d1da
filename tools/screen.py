#!/usr/bin/env python3
"""screen.py FILE: FILE defines M = [(name, property, [(file, old, new), ...]), ...]; each change is made in a scratch clone of
/repo and the property's check run on it. Prints CAUGHT, MISSED or the failure to build."""
import concurrent.futures as cf, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
def one(m):
    name, prop, edits = m
    d = tempfile.mkdtemp(prefix="screen.", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", d + "/r"])
        for f, old, new in edits:
            s = open(f"{d}/r/{f}").read()
            if s.count(old) != 1:
                return f"{name} {prop}: BAD EDIT ({s.count(old)} places)"
            open(f"{d}/r/{f}", "w").write(s.replace(old, new))
        r = subprocess.run([sys.executable, "/verif/run_check.py", prop], env=dict(os.environ, VERIF_REPO=d + "/r"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=1500)
        what = [l for l in r.stdout.splitlines() if l.startswith("  ")][:1]
        return f"{name} {prop}: " + {0: "MISSED", 1: "caught" + (what[0][:160] if what else "")}.get(r.returncode, "NO ANSWER\n" + r.stdout[:800])
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(2) as ex:
    for x in ex.map(one, [m for m in ns["M"] if not only or m[0] in only]):
        print(x, flush=True)
