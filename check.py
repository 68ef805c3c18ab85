#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   decide one property on /repo's current working tree
   check.py --replay FILE               run one recorded counterexample again
   check.py --build HARNESS             build only, print the binary's path

Builds /repo's sources (never its build directory) together with the harnesses of the property, runs
the exhaustive exploration, writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines."""
import concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LHF_REPO", "/repo")
DIRS = ["Complex", "Pipes", "Utils", "Preprocessing"]
BUILD = os.environ.get("LHF_BUILD", os.path.join(VERIF, ".build"))
JOBS = min(8, os.cpu_count() or 4)
sys.path.insert(0, VERIF)
from registry import PROPS, HARNESS  # noqa: E402

BASE = ["-std=c++14", "-w", "-g1", "-pthread"]
VARIANT = {
    "std": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
    "san": ["-O1", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR", "-fsanitize=address", "-fno-omit-frame-pointer", "-DMC_NO_NEW"],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def repo_files(pats):
    r = []
    for d in DIRS:
        for p in pats:
            r += glob.glob(os.path.join(REPO, d, p))
    return sorted(r)


def compile_obj(src, flags, hdr, extra):
    key = hashlib.sha256(("\0".join(flags + extra) + "\0" + src).encode() + read(src) + hdr).hexdigest()[:24]
    obj = os.path.join(BUILD, "%s.%s.o" % (os.path.basename(src), key))
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = sh(["g++"] + flags + extra + ["-c", src, "-o", tmp])
    if p.returncode:
        return None, p.stdout
    os.rename(tmp, obj)
    return obj, None


def build(names):
    """build the harnesses; returns {name: binary}"""
    os.makedirs(BUILD, exist_ok=True)
    hdrs = repo_files(["*.hpp", "*.h"])
    hdr = hashlib.sha256(b"".join(p.encode() + read(p) for p in hdrs)).digest()
    vh = hashlib.sha256(b"".join(read(p) for p in sorted(glob.glob(VERIF + "/lib/*.hpp") + glob.glob(VERIF + "/harness/*.hpp")))).digest()
    inc = ["-I" + os.path.join(REPO, d) for d in DIRS]
    srcs = repo_files(["*.cpp"])
    jobs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for v in sorted({HARNESS[n].get("variant", "std") for n in names}):
            fl = BASE + VARIANT[v] + inc
            mine = [n for n in names if HARNESS[n].get("variant", "std") == v]
            # the biggest translation units first
            for n in mine:
                h = os.path.join(VERIF, "harness", HARNESS[n].get("src", n) + ".cpp")
                jobs[(v, "h", n)] = ex.submit(compile_obj, h, fl, hdr + vh, ["-I" + VERIF + "/lib", "-I" + VERIF + "/harness"] + HARNESS[n].get("flags", []))
            jobs[(v, "l", "mc")] = ex.submit(compile_obj, VERIF + "/lib/mc.cpp", BASE + VARIANT[v], vh, ["-I" + VERIF + "/lib"])
            for s in sorted(srcs, key=lambda p: -os.path.getsize(p)):
                jobs[(v, "r", s)] = ex.submit(compile_obj, s, fl, hdr, [])
    for k, j in jobs.items():
        if j.result()[0] is None:
            print("build of %s failed:\n%s" % (k[2], j.result()[1][:1500]))
            sys.exit(2)
    out = {}
    for n in names:
        v = HARNESS[n].get("variant", "std")
        objs = [jobs[(v, "h", n)].result()[0], jobs[(v, "l", "mc")].result()[0]] + [jobs[k].result()[0] for k in jobs if k[0] == v and k[1] == "r"]
        key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:16]
        binp = os.path.join(BUILD, "%s.%s" % (n, key))
        if not os.path.exists(binp):
            p = sh(["g++"] + BASE + VARIANT[v] + objs + ["-o", binp + ".tmp"] + HARNESS[n].get("libs", []))
            if p.returncode:
                print("link of %s failed:\n%s" % (n, p.stdout[:1500]))
                sys.exit(2)
            os.rename(binp + ".tmp", binp)
        out[n] = binp
    return out


def env(name, crash_only=False):
    e = dict(os.environ)
    e.pop("MC_CRASH_ONLY", None)
    if crash_only:
        e["MC_CRASH_ONLY"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:max_malloc_fill_size=100000:malloc_fill_byte=165:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
    e["LHF_REPO"] = REPO
    return e


def known():
    r = []
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.rstrip("\n")
            if line.startswith("finding: "):
                f = line.split(" ", 3)     # finding: property=Cxx key=... text
                r.append((f[1].split("=", 1)[1], f[2].split("=", 1)[1], f[3] if len(f) > 3 else ""))
    except FileNotFoundError:
        pass
    return r


def run_harness(name, binp, tier, limit, crash_only=False):
    out = tempfile.mkdtemp(prefix="lhfmc.")
    try:
        t0 = time.time()
        e = env(name, crash_only)
        if HARNESS[name].get("needs_lhf"):
            e["LHF_EXE"] = build_exe()
        p = subprocess.run([binp, "--tier", HARNESS[name].get("tier_" + tier, tier), "--jobs", str(HARNESS[name].get("jobs", JOBS)), "--out", out + "/o", "--limit", str(limit)], env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            print("harness %s failed: exit %d\n%s" % (name, p.returncode, p.stdout[-3000:]))
            sys.exit(2)
        s = json.load(open(out + "/o/summary.json"))
        viol = []
        for f in sorted(glob.glob(out + "/o/viol.*")):
            viol += [json.loads(l) for l in open(f, encoding="utf-8", errors="replace")]
        s["violations"] = viol
        s["capped"] = sorted({open(f).read() for f in glob.glob(out + "/o/capped.*")})
        tot = [int(open(f).read()) for f in glob.glob(out + "/o/total.*")]
        s["total"] = max(tot) if tot else 0
        s["wall"] = time.time() - t0
        s["samples"] = [open(f, encoding="utf-8", errors="replace").read().strip() for f in sorted(glob.glob(out + "/o/sample.*"))[:3]]
        return s
    finally:
        shutil.rmtree(out, ignore_errors=True)


_exe = None


def build_exe():
    """the LHF program itself, from the working tree (MPI is a build requirement of the project)"""
    global _exe
    if _exe:
        return _exe
    hdrs = repo_files(["*.hpp", "*.h"])
    hdr = hashlib.sha256(b"".join(p.encode() + read(p) for p in hdrs)).digest()
    inc = ["-I" + os.path.join(REPO, d) for d in DIRS]
    fl = BASE + VARIANT["std"] + inc
    srcs = repo_files(["*.cpp"])
    mpi = sh(["mpicxx", "--showme:compile"]).stdout.split() if shutil.which("mpicxx") else []
    mpil = sh(["mpicxx", "--showme:link"]).stdout.split() if shutil.which("mpicxx") else []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        js = [ex.submit(compile_obj, s, fl, hdr, []) for s in srcs]
        js.append(ex.submit(compile_obj, os.path.join(REPO, "LHFmain/main.cpp"), fl, hdr, mpi + ["-DOMPI_SKIP_MPICXX"]))
    for j in js:
        if j.result()[0] is None:
            print(j.result()[1][:1500])
            sys.exit(2)
    objs = [j.result()[0] for j in js]
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:16]
    binp = os.path.join(BUILD, "LHF.%s" % key)
    if not os.path.exists(binp):
        p = sh(["g++"] + BASE + VARIANT["std"] + objs + ["-o", binp + ".tmp"] + mpil)
        if p.returncode:
            print(p.stdout[:1500])
            sys.exit(2)
        os.rename(binp + ".tmp", binp)
    _exe = binp
    return binp


def main():
    if sys.argv[1] == "--setup":
        for v in ("std", "san"):
            names = [n for n in HARNESS if HARNESS[n].get("variant", "std") == v]
            if names:
                build(names)
        return 0
    if sys.argv[1] == "--build":
        print(build([sys.argv[2]])[sys.argv[2]])
        return 0
    if sys.argv[1] == "--exe":
        print(build_exe())
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        b = build([d["harness"]])[d["harness"]]
        e = env(d["harness"], PROPS[d["property"]].get("crash_only", False))
        if HARNESS[d["harness"]].get("needs_lhf"):
            e["LHF_EXE"] = build_exe()
        return subprocess.run([b, "--replay", "\n".join(d["cases"])], env=e).returncode
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    prop = PROPS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    bins = build(prop["harnesses"])
    tb = time.time() - t0
    res, viols, details = {}, [], []
    budget = prop.get("limit_quick", 400) if tier == "quick" else prop.get("limit_thorough", 800)
    start = time.time()
    for n in prop["harnesses"]:
        left = max(20, budget - (time.time() - start))
        r = run_harness(n, bins[n], tier, left, prop.get("crash_only", False))
        res[n] = r
        for v in r["violations"]:
            v["harness"] = n
            (details if v["kind"].startswith("unconfirmed") else viols).append(v)
    kf = [k for k in known() if k[0] == pid]
    hit, fresh = {}, []
    for v in viols:
        m = [k for k in kf if k[1] in (v["sig"], v["harness"] + ":" + v["case"])]
        if m:
            hit[m[0][1]] = m[0]
        else:
            fresh.append(v)
    rdir = os.path.join(VERIF, "replays")
    if os.path.isdir(rdir):
        for f in glob.glob(os.path.join(rdir, pid + "-*.json")):
            os.unlink(f)
    if fresh:
        os.makedirs(rdir, exist_ok=True)
    fresh.sort(key=lambda v: (len(v["prefix"]), len(v["case"]), v["case"]))
    for i, v in enumerate(fresh[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": v["harness"], "kind": v["kind"], "message": v["msg"], "cases": v["prefix"] or [v["case"]],
                       "how": "python3 check.py --replay " + path}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s %s: %s" % (v["harness"], v["kind"], v["case"][:300], v["msg"][:600]))
    for k in kf:
        print("KNOWN-FINDING: property=%s key=%s %s%s" % (pid, k[1], k[2], "" if k[1] in hit else " (not reached in this run)"))
    cases = sum(r["cases"] for r in res.values())
    ops = sum(r["ops"] for r in res.values())
    nt = sum(r["nontrivial"] for r in res.values())
    capped = {n: r["capped"] for n, r in res.items() if r["capped"]}
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": sum(r["outcomes"] for r in res.values()), "transitions": ops, "traces_validated_against_impl": cases,
            "distinct_nontrivial": nt,
            "rule": prop["rule"],
            "samples": [{"harness": n, "example_cases": r["samples"], "cases_executed": r["cases"], "cases_enumerated": r["total"], "distinct_outcomes": r["outcomes"],
                         "nontrivial": r["nontrivial"], "operations": r["ops"], "seconds": round(r["wall"], 1), "space": HARNESS[n]["space"][tier]} for n, r in res.items()],
            "exhaustive": not capped and all(r["cases"] >= r["total"] for r in res.values()),
        },
        "assumptions": prop.get("assumptions", []) + (["capped: %s" % capped] if capped else []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d operations, %d nontrivial, %s distinct outcomes, build %.1fs, total %.1fs%s" % (
        pid, tier, cases, ops, nt, "+".join(str(r["outcomes"]) for r in res.values()), tb, time.time() - t0, (" CAPPED %s" % capped) if capped else ""))
    for v in details:
        print("  note: %s %s %s" % (v["kind"], v["harness"], v["case"][:200]))
    return 1 if fresh else 0


if __name__ == "__main__":
    sys.exit(main())
