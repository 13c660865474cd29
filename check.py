#!/usr/bin/env python3
"""Builds the monitors against /repo's working tree, runs them, and turns what they observed into
a verdict.   usage: check.py <property id> [quick|thorough] [--case NAME]   |   check.py --setup

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken;
exit 2: no verdict (the monitors could not be built or observed nothing)."""
import concurrent.futures as cf, glob, hashlib, json, os, re, resource, shlex, subprocess, sys, sysconfig, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CORE = os.path.join(REPO, "cppcore")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
EVID = os.path.join(ROOT, "evidence")
JOBS = os.cpu_count() or 8

sys.path.insert(0, ROOT)
from suites import SUITES, MODES  # noqa: E402


# ------------------------------------------------------------------ build

def file_hash(path, _memo={}):
    try:
        st = os.stat(path)
    except OSError:
        return "absent"
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _memo:
        with open(path, "rb") as f:
            _memo[key] = hashlib.sha1(f.read()).hexdigest()
    return _memo[key]


def tracked(path):
    return path.startswith(REPO + "/") or path.startswith(ROOT + "/")


class BuildError(Exception):
    pass


def compile_one(src, mode, flags):
    """Object for one source; reused only if every file it was made from is unchanged."""
    cmd = shlex.split(MODES[mode]["cxx"]) + flags
    tag = hashlib.sha1((src + "\0" + " ".join(cmd)).encode()).hexdigest()[:16]
    obj = os.path.join(BUILD, "%s-%s-%s.o" % (mode, os.path.basename(src).replace(".", "_"), tag))
    meta = obj + ".json"
    try:
        with open(meta) as f:
            deps = json.load(f)
        if os.path.exists(obj) and all(file_hash(p) == h for p, h in deps.items()):
            return obj
    except (OSError, ValueError):
        pass
    dep = obj + ".d"
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compiling %s (%s):\n%s" % (src, mode, r.stdout[-4000:]))
    os.replace(tmp, obj)
    with open(dep) as f:
        names = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    names = sorted({os.path.realpath(n) for n in names})
    with open(meta, "w") as f:
        json.dump({n: file_hash(n) for n in names if tracked(n)}, f)
    return obj


def lib_sources(kind):
    src = sorted(glob.glob(CORE + "/src/**/*.cpp", recursive=True))
    kpm = [s for s in src if "/src/kpm/" in s or s.endswith("/src/KPM.cpp")]
    solver = [s for s in src if "/src/solver/" in s]
    model = [s for s in src if s not in kpm and s not in solver]
    return {"none": [], "model": model, "solver": model + solver, "kpm": model + kpm,
            "all": src, "lanczos": model + kpm,
            "python": src + sorted(glob.glob(os.path.join(REPO, "cppmodule", "src", "*.cpp")))
                      + [os.path.join(ROOT, "shim", "pybind11", "numpy_init.cpp")]}[kind]


def base_flags(mode):
    m = MODES[mode]
    return (["-I" + os.path.join(ROOT, "compat"), "-include", os.path.join(ROOT, "compat", "compat.hpp"),
             "-I" + os.path.join(CORE, "include")] + (["-I" + os.path.join(ROOT, "shim")] if m.get("shim") else [])
            + (["-I" + os.path.join(REPO, "cppmodule", "include"), "-I" + sysconfig.get_paths()["include"], "-I" + numpy_include()]
               if m.get("python") else [])
            + ["-I/usr/include/eigen3", "-w"])


PYTHON = "/opt/veriftools/pyvenv/bin/python"


def numpy_include(_memo=[]):
    if not _memo:
        _memo.append(subprocess.run([PYTHON, "-c", "import numpy; print(numpy.get_include())"],
                                    stdout=subprocess.PIPE, text=True, check=True).stdout.strip())
    return _memo[0]


def run_command(part, exe):
    """The program of a part, and what it needs in its environment. A Python monitor gets the
    module which was built for it, and the Python package straight from the repository."""
    env = dict(ENV, **part.get("env", {}))
    if not MODES[part["mode"]].get("python"):
        return part.get("wrap", []) + [exe], env
    env.update(PYTHONPATH=os.pathsep.join([os.path.dirname(exe), os.path.join(ROOT, "pystub"), REPO]), PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONMALLOC="malloc")
    preload = MODES[part["mode"]].get("preload")
    if preload:
        env["LD_PRELOAD"] = subprocess.run(["clang++", "-print-file-name=" + preload], stdout=subprocess.PIPE, text=True).stdout.strip()
    return [PYTHON, "-W", "ignore", os.path.join(ROOT, "harness", part["script"])], env


def build(targets):
    """targets: list of suite parts {name, src, lib, mode}. Returns {name: executable}"""
    os.makedirs(BUILD, exist_ok=True)
    jobs = {}
    for t in targets:
        # a mode may differ from another one only for some sources: the rest is built once for both
        m = MODES[t["mode"]]
        def mode_of(path, m=m, t=t):
            return t["mode"] if "base" not in m or re.search(m["differs"], path) else m["base"]
        lib = [(s, mode_of(s)) for s in lib_sources(t["lib"])]
        t["_objs"] = [(os.path.join(ROOT, "harness", s), mode_of(s)) for s in t["src"]] + lib
        for k in t["_objs"]:
            jobs[k] = None
    # the sources which take long first
    def weight(k):
        big = ("Moments.cpp", "Core.cpp", "Model.cpp", "Compute.cpp", "OptimizedHam", "Leads.cpp", "KPM.cpp", "Solver.cpp", "Lattice.cpp")
        return (0 if "/harness/" in k[0] else 1 if any(b in k[0] for b in big) else 2)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, k[0], k[1], base_flags(k[1])): k for k in sorted(jobs, key=weight)}
        for f in cf.as_completed(futs):
            jobs[futs[f]] = f.result()
    out = {}
    for t in targets:
        exe = os.path.join(BUILD, "%s-%s" % (t["name"], t["mode"]))
        shared = MODES[t["mode"]].get("python")
        if shared:
            os.makedirs(os.path.join(BUILD, t["mode"]), exist_ok=True)
            exe = os.path.join(BUILD, t["mode"], "_pybinding.so")
        objs = [jobs[k] for k in t["_objs"]]
        key = hashlib.sha1("\0".join(o + file_hash(o) for o in objs).encode()).hexdigest()
        keyf = exe + ".key"
        if not (os.path.exists(exe) and os.path.exists(keyf) and open(keyf).read() == key):
            cmd = shlex.split(MODES[t["mode"]]["cxx"]) + (["-shared"] if shared else []) + objs + ["-lfmt", "-lpthread", "-o", exe]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("linking %s:\n%s" % (exe, r.stdout[-4000:]))
            with open(keyf, "w") as f:
                f.write(key)
        out[t["name"] + "-" + t["mode"]] = exe
    return out


# ------------------------------------------------------------------ run

ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4",
           LSAN_OPTIONS="exitcode=23")


def crash_text(err, rc):
    for pat in (r"MONITOR: .*", r"SUMMARY: \w+Sanitizer: .*", r"[^\n]*runtime error: .*", r"[^\n]*Assertion `.*", r"[^\n]*terminate called.*", r"ERROR: \w+Sanitizer[^\n]*", r"==\d+== (?:Invalid|Conditional|Use of|Mismatched|Syscall)[^\n]*"):
        m = re.search(pat, err)
        if m:
            return m.group(0)[:300]
    return "process ended with status %s" % rc


def run_process(cmd, progress, stall, env):
    """Returns (rc, stderr, stalled)."""
    errf = progress + ".err"
    with open(errf, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env)
        last, last_t = None, time.time()
        delay = 0.02
        while True:
            try:
                p.wait(delay)
                break
            except subprocess.TimeoutExpired:
                delay = min(1.0, delay * 1.5)
                try:
                    cur = open(progress).read()
                except OSError:
                    cur = None
                if cur != last:
                    last, last_t = cur, time.time()
                elif time.time() - last_t > stall:
                    p.kill()
                    p.wait()
                    return None, open(errf, errors="replace").read(), True
    with open(errf, errors="replace") as f:
        err = f.read()
    os.unlink(errf)
    return p.returncode, err, False


def read_progress(path):
    try:
        return open(path).read().strip() or "start"
    except OSError:
        return "start"


def run_shard(exe, part, seed, first, n, step, tag):
    """Runs random cases first, first+step, ... < n; survives crashes of single cases."""
    res, viol = [], []
    run, env = run_command(part, exe)
    start, restarts = first, 0
    while start < n:
        out = os.path.join(BUILD, tag + ".out")
        prog = os.path.join(BUILD, tag + ".progress")
        for f in (out, prog):
            if os.path.exists(f):
                os.unlink(f)
        cmd = run + ["--seed", str(seed), "--from", str(start), "--to", str(n), "--step", str(step),
               "--out", out, "--progress", prog]
        rc, err, stalled = run_process(cmd, prog, part.get("stall", 240), env)
        if rc in (0, 1) and os.path.exists(out):
            with open(out) as f:
                res.append(json.load(f))
            break
        case = read_progress(prog)
        what = ("no progress for %d s (deadlock or endless loop)" % part.get("stall", 240)) if stalled else crash_text(err, rc)
        viol.append({"key": case, "what": what, "case": err[:3000]})
        m = re.match(r"r(\d+)$", case)
        restarts += 1
        if not m or restarts > 2:
            break
        start = int(m.group(1)) + step
    return res, viol


def run_pinned(exe, part, seed, name, tag):
    out = os.path.join(BUILD, tag + ".out")
    prog = os.path.join(BUILD, tag + ".progress")
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    run, env = run_command(part, exe)
    rc, err, stalled = run_process(run + ["--seed", str(seed), "--case", name, "--out", out, "--progress", prog],
                                   prog, part.get("stall", 240), env)
    if rc in (0, 1) and os.path.exists(out):
        with open(out) as f:
            return [json.load(f)], []
    what = "no progress (deadlock or endless loop)" if stalled else crash_text(err, rc)
    return [], [{"key": name, "what": what, "case": err[:3000]}]


def known_findings(prop):
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main(argv):
    if "--setup" in argv:
        # the tools are there and the most common build works; every check builds what it needs itself
        parts = [p for p in SUITES["C02"]["parts"]]
        try:
            build(parts)
        except BuildError as e:
            print(str(e)[-2000:])
            return 1
        print("setup: built %d monitor programs" % len(parts))
        return 0

    prop = argv[0]
    tier = "thorough" if "thorough" in argv or (os.environ.get("VERIF_TIER") == "thorough" and "quick" not in argv) else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    suite = SUITES[prop]
    t0 = time.time()
    try:
        exes = build(suite["parts"])
    except BuildError as e:
        print("NO VERDICT: the monitors could not be built")
        print(str(e))
        return 2
    t_build = time.time() - t0

    if "--case" in argv:
        case = argv[argv.index("--case") + 1]
        rc = 0
        only = argv[argv.index("--part") + 1] if "--part" in argv else None
        for part in suite["parts"]:
            if only and part["name"] + "-" + part["mode"] != only:
                continue
            exe = exes[part["name"] + "-" + part["mode"]]
            run, env = run_command(part, exe)
            rc |= subprocess.call(run + ["--seed", str(seed), "--case", case], env=env)
        return rc

    jobs, results, violations = [], [], []
    tagbase = "%s-%d" % (prop, os.getpid())
    with cf.ThreadPoolExecutor(suite.get("parallel", JOBS)) as ex:
        for part in suite["parts"]:
            name = part["name"] + "-" + part["mode"]
            exe = exes[name]
            run, env = run_command(dict(part, wrap=[]), exe)
            pinned = subprocess.run(run + ["--list-pinned"], stdout=subprocess.PIPE, text=True, env=env).stdout.split()
            for k, p in enumerate(pinned):
                jobs.append((name, ex.submit(run_pinned, exe, part, seed, p, "%s-%s-p%d" % (tagbase, name, k))))
            n, first = part[tier], part.get("first", 0)
            shards = min(part.get("shards", JOBS), max(1, n))
            for i in range(shards):
                jobs.append((name, ex.submit(run_shard, exe, part, seed, first + i, first + n, shards, "%s-%s-%d" % (tagbase, name, i))))
        for name, j in jobs:
            r, v = j.result()
            for x in r:
                x["_part"] = name
            results += r
            violations += [dict(x, part=name) for x in v]
    for f in glob.glob(os.path.join(BUILD, tagbase + "-*")):
        os.unlink(f)
    for r in results:
        violations += [dict(x, part=r["_part"]) for x in r["violations"]]

    counters, distinct, samples, evals, skipped, rule = {}, {}, [], 0, 0, suite.get("rule", "")
    for r in results:
        evals += r["evaluations"]
        skipped += r["skipped"]
        rule = rule or r["rule"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r["distinct"].items():
            distinct.setdefault(k, set()).update(v)
        samples += r["samples"]

    known = known_findings(prop)
    seen_known, fresh = {}, []
    for v in violations:
        if v["key"] in known:
            seen_known[v["key"]] = v
        else:
            fresh.append(v)

    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct.get("cases", ())),
                       "rule": rule, "samples": samples[:4] or ["none"],
                       "skipped_out_of_domain": skipped,
                       "observed": {k: counters[k] for k in sorted(counters)},
                       "distinct_observed": {k: len(v) for k, v in sorted(distinct.items()) if k != "cases"},
                       "builds": [{"program": p["name"], "mode": p["mode"], "flags": MODES[p["mode"]]["cxx"]} for p in suite["parts"]],
                       "build_s": round(t_build, 1)},
          "assumptions": suite.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    if seen_known:
        ev["coverage"]["known_findings_observed"] = sorted(seen_known)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if fresh:
        for n, v in enumerate(fresh[:5]):
            path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, n))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "case": v["key"], "part": v["part"], "what": v["what"], "input": v["case"],
                           "replay": "cd %s && VERIF_SEED=%d python3 check.py %s --case %s --part %s" % (ROOT, seed, prop, v["key"], v["part"])}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (v["key"], v["what"][:600]))
        return 1
    nt = len(distinct.get("cases", ()))
    if nt < suite.get("min_nontrivial", 10) or counters.get("monitor_checks", 0) == 0:
        print("NO VERDICT: %s observed too little (%d distinct non-trivial cases)" % (prop, nt))
        return 2
    print("%s: held on %d cases (%d distinct non-trivial, %d monitor checks, %d skipped), %.1f s (build %.1f s)" % (
        prop, evals, nt, counters.get("monitor_checks", 0), skipped, time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
