#!/usr/bin/env python3
"""Mutation screening of the checks (a tool to find gaps; no check uses it).
  mutate.py OUT.jsonl SEED WORKERS HOURS [file-regex]
For each mutant: copy of /repo, one line changed, the file's checks run (release configuration first,
then the rest); survivors are written with verdict 'alive'."""
import json, os, random, re, subprocess, sys, tempfile, shutil, time, threading
MAP = {
 "charconv.hpp": "C01 C03 C04 C05 C02 C06 C16", "substr.hpp": "C07 C08 C09 C10 C05 C28", "format.hpp": "C13 C14 C16 C02", "format.cpp": "C16 C13",
 "dump.hpp": "C15", "base64.cpp": "C11 C16", "base64.hpp": "C11 C16", "utf.cpp": "C12", "utf.hpp": "C12", "enum.hpp": "C17", "bitmask.hpp": "C17",
 "span.hpp": "C18", "memory_resource.cpp": "C19 C20", "memory_resource.hpp": "C20 C19 C23 C27", "allocator.hpp": "C21", "ctor_dtor.hpp": "C22",
 "error.cpp": "C23", "error.hpp": "C23", "memory_util.hpp": "C24", "memory_util.cpp": "C24", "blob.hpp": "C24 C11 C16", "char_traits.hpp": "C24", "char_traits.cpp": "C24",
 "inplace_function.h": "C25", "string.hpp": "C26 C13", "vector.hpp": "C26 C13", "string_view.hpp": "C26", "hash.hpp": "C28", "szconv.hpp": "C28",
 "fast_float_all.h": "C06 C05", "type_name.hpp": "C29", "rng.hpp": "C30",
}
EXTRA = os.environ.get("MUT_MAP")
def active_lines():
    src = "\n".join('#include <c4/%s>' % h for h in "format.hpp dump.hpp base64.hpp utf.hpp enum.hpp bitmask.hpp span.hpp memory_resource.hpp allocator.hpp ctor_dtor.hpp error.hpp memory_util.hpp blob.hpp char_traits.hpp std/string.hpp std/vector.hpp std/string_view.hpp hash.hpp szconv.hpp type_name.hpp ext/sg14/inplace_function.h".split())
    act = {}
    def go(args, inp):
        r = subprocess.run(["g++", "-std=c++17", "-DC4_NO_DEBUG_BREAK", "-E", "-I/repo/src"] + args, input=inp, stdout=subprocess.PIPE, text=True, stderr=subprocess.DEVNULL)
        f, n = None, 0
        for l in r.stdout.split("\n"):
            m = re.match(r'# (\d+) "([^"]*)"', l)
            if m: n, f = int(m.group(1)), m.group(2); continue
            if l.strip() and f: act.setdefault(os.path.realpath(f), set()).add(n)
            n += 1
    go(["-x", "c++", "-"], src)
    for c in os.listdir("/repo/src/c4"):
        if c.endswith(".cpp"): go(["/repo/src/c4/" + c], "")
    return act
OPS = [(r"(?<![<>=!\-&])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![->=])>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
 (r"\+ ?1\b", "- 1"), (r"- ?1\b", "+ 1"), (r"\+ ?1\b", "+ 2"), (r"- ?1\b", ""), (r"&&", "||"), (r"\|\|", "&&"), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\bif\((.*)\)\s*$", r"if(!(\1))"), (r" \+ (?=\w)", " - "), (r" - (?=\w)", " + "), (r"\breturn (?!\{|;|false;|0;|nullptr;|npos;)([^;]+);", r"return {};"), (r"^(\s*)([A-Za-z_][\w\.\->\[\]\(\)\*]*\s*(=|\+=|\()[^;{]*;)\s*$", r"\1;"), (r"'(\w)'", "'~'"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"!(?=\w|\()", ""), (r"&(?=\w)(?<=\w )", "|")]
if os.environ.get("MUT_NARROW"): # variables that wrap at 2^16
    OPS = [(r"\b(size_t|I|SizeType)(?= \w+ *(=|;|\{))", "uint16_t")]
def mutants(act):
    out = []
    for f, lines in act.items():
        if not f.startswith("/repo/src/c4"): continue
        b = os.path.basename(f)
        if b not in MAP: continue
        txt = open(f).read().split("\n")
        for n in sorted(lines):
            if n - 1 >= len(txt): continue
            l = txt[n - 1]
            s = l.strip()
            if not s or s.startswith(("#", "//", "*", "/*", "template", "using", "typedef", "friend", "namespace")) or "ASSERT" in l or "C4_CHECK" in l or "enable_if" in l or "static_assert" in l or "C4_UNUSED" in l: continue
            code = l.split("//")[0]
            for i, (a, r) in enumerate(OPS):
                for m in re.finditer(a, code):
                    new = code[:m.start()] + m.expand(r) + code[m.end():]
                    if new != code: out.append((f, n, i, l, new))
    return out
lock = threading.Lock()
def judge(m, out):
    f, n, i, old, new = m
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        shutil.copytree("/repo/src", w + "/src")
        p = w + f[len("/repo"):]
        t = open(p).read().split("\n"); assert t[n - 1] == old; t[n - 1] = new
        open(p, "w").write("\n".join(t))
        env = dict(os.environ, VERIF_REPO=w)
        verdict, by = "alive", ""
        for c in MAP[os.path.basename(f)].split():
            cfg = ["--config", {"C27": "tsi", "C29": "o17"}.get(c, "rel")]
            try:
                r = subprocess.run(["timeout", "-k", "5", "200", "python3", "run_check.py", c] + cfg, cwd=w + "/../" + os.path.basename(VCOPY), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                rc, o = r.returncode, r.stdout
            except Exception as e:
                rc, o = 99, str(e)
            if rc == 2 and "does not build" in o: verdict, by = "nobuild", c; break
            if rc != 0: verdict, by = ("killed" if rc == 1 else "rc%d" % rc), c; break
        with lock:
            out.write(json.dumps(dict(file=f, line=n, op=i, old=old.strip(), new=new.strip(), verdict=verdict, by=by)) + "\n"); out.flush()
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    outp, seed, workers, hours = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), float(sys.argv[4])
    rx = sys.argv[5] if len(sys.argv) > 5 else "."
    VCOPY = tempfile.mkdtemp(prefix="mutv.", dir="/tmp")
    for x in ("run_check.py", "checks.py", "harness", "known_findings.txt"):
        (shutil.copytree if os.path.isdir("/verif/" + x) else shutil.copy)("/verif/" + x, VCOPY + "/" + x)
    ms = [m for m in mutants(active_lines()) if re.search(rx, m[0])]
    done = set()
    if os.path.exists(outp):
        for l in open(outp): d = json.loads(l); done.add((d["file"], d["line"], d["op"], d["new"]))
    ms = [m for m in ms if (m[0], m[1], m[2], m[4].strip()) not in done]
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants", flush=True)
    if os.environ.get("MUT_DRY"): sys.exit()
    end = time.time() + hours * 3600
    it = iter(ms); out = open(outp, "a")
    def work():
        while time.time() < end:
            with lock: m = next(it, None)
            if m is None: return
            judge(m, out)
    th = [threading.Thread(target=work) for _ in range(workers)]
    [t.start() for t in th]; [t.join() for t in th]
    shutil.rmtree(VCOPY, ignore_errors=True)
