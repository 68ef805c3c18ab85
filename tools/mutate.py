#!/usr/bin/env python3
"""mutate.py OUT [FILE...]   development aid: systematic one-line mutants of /repo's sources, each run against
the harnesses for its file (small tier first, then quick); survivors are listed in OUT for review.
Works on private copies under /tmp/mut; no registered check uses it."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, threading, time, random
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("MUT_ROOT", "/tmp/mut")
NW = int(os.environ.get("MUT_WORKERS", "7"))
COV = os.environ.get("MUT_COV", "/tmp/cov/cov.json")
MAP = {
 "Complex/simplexArrayList.cpp": ["complex_list", "lifecycle", "collapse", "persist0", "persist1", "pipeline", "window"],
 "Complex/simplexTree.cpp": ["complex_tree", "lifecycle", "persist1", "persist2", "pipeline", "window"],
 "Complex/indSimplexTree.cpp": ["complex_tree", "lifecycle", "persist1", "pipeline", "window"],
 "Complex/simplexBase.cpp": ["complex_tree", "lifecycle", "stages", "pipeline", "window", "program"],
 "Pipes/basePipe.cpp": ["stages", "pipeline", "program", "cli"],
 "Pipes/boundaryPipe.cpp": ["bmatrix", "stages", "program"],
 "Pipes/distMatrixPipe.cpp": ["pipeline", "stages", "program", "window"],
 "Pipes/fastPersistence.cpp": ["persist0", "persist1", "pipeline", "stages", "program"],
 "Pipes/naiveWindow.cpp": ["window", "stages", "program"],
 "Pipes/neighGraphPipe.cpp": ["pipeline", "stages", "program", "window"],
 "Pipes/persistencePairs.cpp": ["persist2", "bmatrix", "pipeline", "stages", "program"],
 "Pipes/pipePacket.cpp": ["stages", "pipeline", "program"],
 "Pipes/ripsPipe.cpp": ["stages", "collapse", "pipeline", "program"],
 "Pipes/slidingWindow.cpp": ["window", "stages", "program"],
 "Pipes/upscalePipe.cpp": ["stages", "program"],
 "Utils/argParser.cpp": ["cli", "program"],
 "Utils/readInput.cpp": ["readio", "writeio", "window", "program"],
 "Utils/utils.cpp": ["utilops", "partition", "persist1", "stages", "program", "pipeline", "microcluster", "collapse"],
 "Utils/writeOutput.cpp": ["writeio", "program"],
 "Preprocessing/dbscan.cpp": ["dbscan", "denstream"],
 "Preprocessing/denStream.cpp": ["microcluster", "denstream", "program"],
 "Preprocessing/kMeansPlusPlus.cpp": ["kmeans", "program", "stages"],
 "Preprocessing/kdTree.cpp": ["kdtree", "dbscan"],
 "Preprocessing/preprocessor.cpp": ["stages", "program"],
 "LHFmain/main.cpp": ["program"],
}
SKIP = re.compile(r'writeDebug|writeLog|std::cout|^\s*cout|^\s*#|^\s*//|^\s*\*|^\s*/\*')
OPS = [
 (r'(?<=[\w\)\] ])<=(?!=)', ['<']), (r'(?<=[\w\)\] ])>=(?!=)', ['>']),
 (r'(?<=[\w\)\]] )<(?= )|(?<=[\w\)\]])<(?=[\d\w]+;)', ['<=', '>']), (r'(?<=[\w\)\]] )>(?= )', ['>=', '<']),
 (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
 (r'(?<=[\w\)\]]) \+ (?=[\w\(])|(?<=[\w\)\]])\+(?=[\w\(])', [' - ']), (r'(?<=[\w\)\]]) - (?=[\w\(])|(?<=[\w\)\]])-(?=[\w\(])', [' + ']),
 (r'(?<=[\w\)\]])\s?\*\s?(?=[\w\(])', [' + ']), (r'(?<=[\w\)\]])\s?/\s?(?=[\w\(])', [' * ']),
 (r'(?<![\w.\"])(\d+)(?![\w.\"])', ['N']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
 (r'\bcontinue;', [';']), (r'\bbreak;', [';']), (r'\bmin_element\b', ['max_element']), (r'\+=', ['-=', '=']), (r'(?<![\w)])!(?=[\w(])', ['']),
 (r'\bstd::max\b', ['std::min']), (r'\bstd::min\b', ['std::max']), (r'\.begin\(\)(?= \+)', ['.begin() + 1']), (r'\.insert\(', ['.count(']),
]

def mutants(path, cov):
    lines = open(path).read().split("\n")
    out = []
    inblock = False
    for n, l in enumerate(lines, 1):
        s = l
        if inblock:
            if "*/" in s: inblock = False
            continue
        if "/*" in s and "*/" not in s: inblock = True; continue
        if cov is not None and cov.get(str(n)) == 0: continue
        if SKIP.search(l): continue
        code = l.split("//")[0]
        if not code.strip(): continue
        strs = [m.span() for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
        instr = lambda p: any(a <= p < b for a, b in strs)
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if instr(m.start()): continue
                for r in reps:
                    if r == 'N':
                        v = int(m.group(1))
                        for nv in ([v + 1] if v else [1]):
                            out.append((n, code[:m.start()] + str(nv) + code[m.end():]))
                    else:
                        out.append((n, code[:m.start()] + r + code[m.end():]))
        t = code.strip()
        if t.endswith(";") and not re.match(r'^(return|break|continue|else|for|if|while|do|using|typedef|\}|const |auto |int |double |bool |unsigned |std::\w+(<.*>)? \w|\w+(<.*>)?\*? \w+( =|;|\())', t) or re.match(r'^\w+(\.|->)\w+\(.*\);$', t):
            out.append((n, "; // deleted: " + t))
        m = re.match(r'^(\s*(?:\}\s*)?(?:else )?if\s*\()(.*)(\)\s*\{?.*)$', code)
        if m and cov is not None:
            out.append((n, m.group(1) + "!(" + m.group(2) + ")" + m.group(3)))
            out.append((n, m.group(1) + "true || " + m.group(2) + m.group(3)))
    seen, r = set(), []
    for x in out:
        if x not in seen and x[1] != lines[x[0] - 1]: seen.add(x); r.append(x)
    return lines, r

local = threading.local()
ids = list(range(NW)); lock = threading.Lock()

def worker_dir():
    if not hasattr(local, "k"):
        with lock: local.k = ids.pop()
        d = "%s/w%d" % (ROOT, local.k)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo/Complex", "/repo/Pipes", "/repo/Utils", "/repo/Preprocessing", "/repo/LHFmain", "/repo/cmake_tests", d + "/"], check=True)
        shutil.copytree(VERIF, d + "/verif", ignore=shutil.ignore_patterns(".git", ".build", "seeded"))
        local.d = d
    return local.d

def run(harness, d, tier, limit):
    e = dict(os.environ, LHF_REPO=d, LHF_BUILD=d + "/build")
    py = "import sys; sys.argv=['check.py']; sys.path.insert(0,'%s/verif'); import check\nfrom registry import HARNESS\n" % d
    py += "h=%r\nHARNESS[h]=dict(HARNESS[h],jobs=1)\nHARNESS[h].pop('tier_quick',None)\ncheck.JOBS=1\nb=check.build([h])[h]\nr=check.run_harness(h,b,%r,%d)\nv=[x for x in r['violations'] if not x['kind'].startswith('unconfirmed')]\nfrom_known={k[1] for k in check.known()}\nv=[x for x in v if x['sig'] not in from_known and h+':'+x['case'] not in from_known]\nprint('RESULT',len(v),r['capped'],v[0]['case'][:80] if v else '')\n" % (harness, tier, limit)
    p = subprocess.run([sys.executable, "-c", py], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e)
    m = re.search(r'RESULT (\d+) (.*)', p.stdout)
    if not m: return ("build" if "failed:" in p.stdout else "error"), p.stdout[-300:]
    return ("killed" if int(m.group(1)) else "alive"), m.group(2)

def one(job):
    f, n, orig, new = job
    d = worker_dir()
    path = d + "/" + f
    src = open("/repo/" + f).read().split("\n")
    src[n - 1] = new
    open(path, "w").write("\n".join(src))
    st, det, by = "alive", "", ""
    try:
        for tier in os.environ.get("MUT_TIERS", "small,quick").split(","):
            for h in MAP[f]:
                t, det = run(h, d, tier, int(os.environ.get("MUT_SMALL", "60")) if tier == "small" else int(os.environ.get("MUT_QUICK", "240")))
                if t != "alive":
                    st, by = t, h + "/" + tier
                    break
            if st != "alive": break
    finally:
        shutil.copy("/repo/" + f, path)
        # keep the build directory small: objects of mutants are never reused
        b = d + "/build"
        if os.path.isdir(b):
            now = time.time()
            for x in os.listdir(b):
                p = b + "/" + x
                if (x.startswith(os.path.basename(f)) or not x.endswith(".o")) and os.path.exists(p): os.unlink(p)
    return dict(file=f, line=n, orig=orig.strip(), new=new.strip(), status=st, by=by, detail=det if st != "killed" else "")

def main():
    out = sys.argv[1]; files = sys.argv[2:] or list(MAP)
    cov = json.load(open(COV)) if os.path.exists(COV) else {}
    jobs = []
    for f in files:
        c = cov.get("/repo/" + f)
        lines, ms = mutants("/repo/" + f, c)
        jobs += [(f, n, lines[n - 1], new) for n, new in ms]
    cap = int(os.environ.get("MUT_CAP", "0"))
    if cap:
        by = {}
        for j in jobs: by.setdefault(j[0], []).append(j)
        jobs = []
        for k in by: random.Random(1).shuffle(by[k]); jobs += by[k][:cap]
    done = set()
    if os.path.exists(out):
        for l in open(out): r = json.loads(l); done.add((r["file"], r["line"], r["new"]))
    jobs = [j for j in jobs if (j[0], j[1], j[3].strip()) not in done]
    print(len(jobs), "mutants", flush=True)
    if os.environ.get("MUT_COUNT"): return
    with cf.ThreadPoolExecutor(NW) as ex, open(out, "a") as o:
        for r in ex.map(one, jobs):
            o.write(json.dumps(r) + "\n"); o.flush()
main()
