#!/usr/bin/env python3
"""Driver of the bounded-exhaustive checks.

  run_check.py ID [--tier quick|thorough]      build from /repo's working tree, explore, write evidence
  run_check.py --replay FILE                   re-run the section that produced a recorded violation

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, CONFIGS   # noqa: E402

NPROC = os.cpu_count() or 8


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


class BuildError(Exception):
    """user: a harness, which uses only the library's public headers, was rejected by the compiler (not: the library's own
    sources, a crash of the compiler or a lack of resources)"""
    user = False


def compile_one(args):
    cmd, what = args
    r = run(cmd, 600)
    if r.returncode != 0:
        err = r.stderr.decode(errors="replace")
        brief = "\n".join([l for l in err.splitlines() if re.search(r"error|undefined|required from here", l)][:12])
        e = BuildError("%s\n%s" % (" ".join(cmd), brief or err[-3000:]))
        e.user = r.returncode == 1 and "/harness/" in " ".join(cmd[-3:]) and re.search(r"(?m)^\S.*: error: ", err) is not None \
            and not re.search(r"internal compiler error|PLEASE submit a bug|Killed|No space left|out of memory|cannot allocate|No such file", err)
        raise e
    return what


def lib_sources():
    return sorted(glob.glob(REPO + "/src/c4/*.cpp"))


def main_config(cname):
    """configurations of the language standard and compiler the repository is built with, which have to compile; another one
    (an older standard, say, for which an added statement in a constexpr function is an error) is left out when it does not"""
    c = CONFIGS[cname]
    return "-std=c++17" in c["flags"] and (c["cxx"] == "g++" or cname == "tsi")


def build(pid, bdir, tier, only_config=None):
    """returns [(binary, config, harness)], [configuration left out: why]"""
    jobs, links, bins = [], [], []
    out = {}

    def attempt(job):
        cmd, what, cname = job
        try:
            compile_one((cmd, what))
        except BuildError as e:
            if main_config(cname):
                raise
            out.setdefault(cname, str(e))

    libs = {}
    for b in CHECKS[pid]["builds"]:
        if b.get("tier") == "thorough" and tier != "thorough":
            continue
        for cname in b["configs"]:
            if only_config and cname != only_config:
                continue
            c = CONFIGS[cname]
            lkey = cname
            if b.get("lib", True) and lkey not in libs:
                objs = []
                for s in lib_sources():
                    o = "%s/%s-%s.o" % (bdir, lkey, os.path.basename(s))
                    jobs.append(([c["cxx"]] + c["flags"] + c.get("libflags", []) + ["-I" + REPO + "/src", "-c", s, "-o", o], o, cname))
                    objs.append(o)
                libs[lkey] = objs
            for part in range(b.get("parts", 1)):
              extra = b.get("defs", []) + (["-DMC_PARTS=%d" % b["parts"], "-DMC_PART=%d" % part] if "parts" in b else [])
              name = "%s-%s-%d" % (os.path.splitext(b["harness"])[0], cname, part) + ("-" + b["suffix"] if b.get("suffix") else "")
              o = "%s/%s.o" % (bdir, name)
              jobs.append(([c["cxx"]] + c["flags"] + c.get("harnessflags", []) + extra + ["-I" + REPO + "/src", "-I" + HERE + "/harness", "-c",
                            HERE + "/harness/" + b["harness"], "-o", o], o, cname))
              objs = [o]
              for x in b.get("extra", []):
                  xo = "%s/%s-%s.o" % (bdir, name, os.path.splitext(x)[0])
                  jobs.append(([c["cxx"]] + c.get("extraflags", c["flags"]) + ["-I" + REPO + "/src", "-I" + HERE + "/harness", "-c", HERE + "/harness/" + x, "-o", xo], xo, cname))
                  objs.append(xo)
              exe = "%s/%s" % (bdir, name)
              links.append(([c["cxx"]] + c.get("linkflags", c["flags"]) + objs + (libs[lkey] if b.get("lib", True) else []) + ["-o", exe] + c.get("ldflags", ["-lpthread"]), exe, cname))
              bins.append((exe, cname, b))
    # the harness objects take longest: start them first
    jobs.sort(key=lambda j: 0 if "/harness/" in " ".join(j[0][-3:]) else 1)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(attempt, jobs))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(attempt, [l for l in links if l[2] not in out]))
    for c in sorted(out):
        log("configuration %s is left out, it does not compile: %s" % (c, out[c][-600:]))
    return [b for b in bins if b[1] not in out], ["%s: does not compile" % c for c in sorted(out)]


def library_compiles(bdir):
    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(compile_one, [(["g++", "-std=c++17", "-O0", "-w", "-DC4_NO_DEBUG_BREAK", "-I" + REPO + "/src", "-c", s, "-o", "%s/probe-%d.o" % (bdir, i)], s) for i, s in enumerate(lib_sources())]))
        return True
    except BuildError:
        return False


def write_evidence(pid, ev):
    edir = ensure(HERE + "/evidence" if REPO == "/repo" else tempfile.gettempdir() + "/evidence-other")
    with open(edir + "/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def run_job(job):
    exe, cname, bspec, section, shard, nshard, tier, timeout = job
    cmd = [exe, "--run", section, "--shard", str(shard), str(nshard)]
    if tier == "thorough":
        cmd.append("--thorough")
    t0 = time.time()
    try:
        r = run(cmd, timeout)
        out, err, rc = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace")
        err = (e.stderr or b"").decode(errors="replace")
        rc = "timeout"
    return dict(job=job, rc=rc, out=out, err=err, wall=time.time() - t0)


def parse(res):
    viol, samples, bounds, st = [], [], [], dict(states=0, transitions=0, traces=0)
    done = False
    for l in res["out"].splitlines():
        if l.startswith("MC-VIOLATION "):
            viol.append(l[len("MC-VIOLATION "):])
        elif l.startswith("MC-SAMPLE "):
            samples.append(l[len("MC-SAMPLE "):])
        elif l.startswith("MC-BOUND "):
            bounds.append(l[len("MC-BOUND "):])
        elif l.startswith(("MC-STAT ", "MC-CAPPED ", "MC-ABORTED ")):
            for k in st:
                m = re.search(k + r"=(\d+)", l)
                if m:
                    st[k] += int(m.group(1))
        elif l.startswith("MC-DONE"):
            done = True
    return viol, samples, bounds, st, done


def load_known(pid):
    """known_findings.txt: lines  'known: property=<id> key=<section | case>'  (and 'fixed:' lines, which suppress nothing)"""
    known = {}
    p = HERE + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(.*?)(?: ## (.*))?$", l.rstrip("\n"))
            if m and m.group(1) == pid:
                known[m.group(2).strip()] = m.group(3) or ""
    return known


def violation_key(v):
    parts = v.split(" | ")
    return " | ".join(parts[:2])


def check(pid, tier, only_section=None, only_config=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[pid]
    bdir = tempfile.mkdtemp(prefix="%s-" % pid, dir=ensure(HERE + "/build"))
    try:
        try:
            bins, left_out = build(pid, bdir, tier, only_config)
        except BuildError as e:
            log("the harness of %s does not build against /repo:\n%s" % (pid, e))
            if not e.user or not library_compiles(bdir):
                return 2
            # the library compiles but uses of its documented interface, which compiled, are rejected
            path = "%s/%s-build.json" % (ensure(HERE + "/replays"), pid)
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, config=only_config, section=None, key="build", violation="the documented interface does not compile: " + str(e),
                               how="python3 /verif/run_check.py --replay " + path), f, indent=1)
            write_evidence(pid, dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
                  coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=["(the interface does not compile)"], exhaustive=False),
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1))
            log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        t_build = time.time() - t0
        jobs = []
        timeout = spec.get("timeout", 350) if tier == "quick" else spec.get("thorough_timeout", 6 * 3600)
        for exe, cname, bspec in bins:
            if only_config and cname != only_config:
                continue
            r = run([exe, "--list"], 60)
            if r.returncode != 0:
                log("cannot list sections: %s" % r.stderr.decode(errors="replace"))
                return 2
            for l in r.stdout.decode().split("\n"):
                if not l.strip():
                    continue
                sec, sh = l.split()
                sh = int(sh)
                if only_section and sec != only_section:
                    continue
                if bspec.get("only") and sec not in bspec["only"]:
                    continue
                if bspec.get("skip") and sec in bspec["skip"]:
                    continue
                if tier == "thorough" and sh > 1:
                    sh = max(sh, NPROC * 2)
                for i in range(sh):
                    jobs.append((exe, cname, bspec, sec, i, sh, tier, timeout))
        # many-shard sections first: they are the long ones
        jobs.sort(key=lambda j: -j[5])
        known = load_known(pid)
        stop = threading.Event()   # a violation was found and confirmed: what has not started is not needed

        def judged(job):
            """the job's result; a violation, or a death, is repeated before it is believed (res["viol"])"""
            if stop.is_set():
                return None
            res = run_job(job)
            viol, _, _, _, done = parse(res)
            sec, i, sh = job[3:6]
            if res["rc"] == "timeout" and not viol:
                return res
            if viol:
                viol2 = parse(run_job(job))[0]
                keys2 = {violation_key(v) for v in viol2}
                # what depends on uninitialised or freed memory may show up in another case of the section when repeated
                keep = [v for v in viol if violation_key(v) in keys2] or viol2
                if not keep:
                    res["internal"] = "violation did not repeat: %s" % viol[0]
                res["viol"] = keep
            elif not done or res["rc"] not in (0, 1):
                # died without telling: confirm
                res2 = run_job(job)
                viol2, _, _, _, done2 = parse(res2)
                if res2["rc"] == 0 and done2:
                    res["internal"] = "died once (rc=%s) and passed when repeated: %s" % (res["rc"], res["err"][-400:])
                elif res2["rc"] == 2:
                    res["internal"] = res2["err"][-2000:]
                else:
                    res = res2
                    res["viol"] = viol2 or ["%s | shard %d/%d | the process died: rc=%s %s" % (sec, i, sh, res2["rc"], res2["err"][-400:].replace("\n", " "))]
            if any(violation_key(v) not in known for v in res.get("viol", [])):
                stop.set()
            return res
        with cf.ThreadPoolExecutor(NPROC) as ex:
            results = [r for r in ex.map(judged, jobs) if r]
        tot = dict(states=0, transitions=0, traces=0)
        samples, bounds, violations, persec = [], [], [], {}
        internal = []
        for res in results:
            exe, cname, bspec, sec, i, sh = res["job"][:6]
            if res["rc"] == "timeout" and "viol" not in res:
                if stop.is_set():
                    continue
                # alone, before calling it unfinished
                log("section %s [%s] %d/%d timed out; running it again alone" % (sec, cname, i, sh))
                res = judged(res["job"])
                if res["rc"] == "timeout" and "viol" not in res:
                    internal.append("section %s [%s] did not finish" % (sec, cname))
                    continue
            if "internal" in res:
                internal.append("section %s [%s]: %s" % (sec, cname, res["internal"]))
                continue
            _, smp, bnd, st, done = parse(res)
            viol = res.get("viol", [])
            for k in tot:
                tot[k] += st[k]
            d = persec.setdefault("%s [%s]" % (sec, cname), dict(states=0, transitions=0, traces=0, wall_s=0.0))
            for k in st:
                d[k] += st[k]
            d["wall_s"] = round(d["wall_s"] + res["wall"], 2)
            samples += smp
            bounds += ["[%s] %s" % (cname, b) for b in bnd]
            for v in viol:
                violations.append((v, cname, bspec["harness"], sec, res))
        for k, d in persec.items():
            if d["states"] == 0 or d["traces"] == 0:
                if not violations:
                    internal.append("section %s explored nothing" % k)
        new, seen = [], {}
        for v in violations:
            k = violation_key(v[0])
            if k in known:
                seen[k] = known[k]
            else:
                new.append(v)
        wall = round(time.time() - t0, 2)
        # spread the samples over the sections
        bysec = {}
        for s in samples:
            bysec.setdefault(s.split(":")[0], []).append(s)
        smp = []
        for i in range(3):
            for k in sorted(bysec):
                if i < len(bysec[k]) and bysec[k][i] not in smp:
                    smp.append(bysec[k][i])
        ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
                  coverage=dict(states=tot["states"], transitions=tot["transitions"],
                                traces_validated_against_impl=tot["traces"],
                                samples=smp[:40] or ["(none)"],
                                exhaustive=not new and not internal,
                                bounds=sorted(set(bounds)), sections=persec,
                                configurations=sorted({c for _, c, _ in bins}), configurations_left_out=left_out,
                                build_s=round(t_build, 2)),
                  assumptions=spec.get("assumptions", []), wall_s=wall, violations=len(new))
        write_evidence(pid, ev)
        for k in seen:
            log("KNOWN-FINDING: property=%s %s %s" % (pid, k, seen[k]))
        log("%s %s: states=%d transitions=%d traces=%d build=%.1fs wall=%.1fs jobs=%d violations=%d" % (
            pid, tier, tot["states"], tot["transitions"], tot["traces"], t_build, wall, len(jobs), len(new)))
        if new:
            ensure(HERE + "/replays")
            for n, (v, cname, harness, sec, res) in enumerate(new[:6]):
                h = hashlib.sha1(v.encode()).hexdigest()[:10]
                path = "%s/replays/%s-%s.json" % (HERE, pid, h)
                with open(path, "w") as f:
                    json.dump(dict(property=pid, tier=tier, config=cname, harness=harness, section=sec, key=violation_key(v),
                                   violation=v, stderr=res["err"][-3000:],
                                   how="python3 /verif/run_check.py --replay " + path), f, indent=1)
                log("  " + v[:600])
                log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if internal:
            for x in internal:
                log("CHECK-ERROR: " + x)
            return 2
        return 0
    finally:
        shutil.rmtree(bdir, ignore_errors=True)


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def replay(path):
    r = json.load(open(path))
    log("replaying %s section %s [%s]: %s" % (r["property"], r["section"] or "build", r["config"] or "all configurations", r["key"]))
    return check(r["property"], r["tier"], r["section"], r["config"])


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1]))
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    sec = cfg = None
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--section":
            sec = a[i + 1]
        elif a[i] == "--config":
            cfg = a[i + 1]
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.exit(check(pid, tier, sec, cfg))


if __name__ == "__main__":
    try:
        main()
    except Exception:  # a failure of the machinery is not a violation
        traceback.print_exc()
        sys.exit(2)
