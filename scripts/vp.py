#!/usr/bin/env python3
"""Solver-based checks for QC_Tools.  usage: vp.py <property> [--tier quick|thorough] [--keep] [--only entry]"""
import sys, os, re, json, hashlib, subprocess, tempfile, shutil, time, glob, struct, math
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
sys.path.insert(0, os.path.join(VERIF, "scripts"))
from checks import CHECKS
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
def tool(n):
    for c in ("/usr/lib/llvm-18/bin/" + n, n + "-18", n):
        p = shutil.which(c)
        if p: return p
    return n
STD = "-std=c++11"
BCFLAGS = [STD, "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", "-w", "-D_GLIBCXX_ASSERTIONS", "-DLOG_LEVEL=0", "-Dmain=calcJ_main",
           "-I" + os.path.join(VERIF, "rt/include"), "-fno-vectorize", "-fno-slp-vectorize", "-U_FORTIFY_SOURCE"]
NATFLAGS = [STD, "-O1", "-g1", "-w", "-DLOG_LEVEL=0", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-c"]

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)

def snapshot(dst):
    """private copy of the current working tree's sources plus the cmake-generated header"""
    src = os.path.join(REPO, "src")
    shutil.copytree(src, os.path.join(dst, "src"), ignore=shutil.ignore_patterns("tests", "*.gch", "calcJconfig.hpp"))
    cm = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
    vs = dict(re.findall(r"^\s*set\s*\(\s*(calcJ_\w+)\s+(.*?)\s*\)\s*$", cm, re.M))
    tin = os.path.join(dst, "src/libcatnip/calcJconfig.hpp.in")
    if os.path.exists(tin):
        def val(m):
            v = vs.get(m.group(1), "")
            if len(v) > 1 and v[0] == '"' and v[-1] == '"': v = v[1:-1].replace('\\"', '"')
            return v
        t = open(tin, errors="replace").read()
        t = re.sub(r"@(\w+)@", val, t)
        t = re.sub(r"\$\{(\w+)\}", val, t)
        t = re.sub(r"^#cmakedefine\s+(\w+)(.*)$", r"#define \1\2", t, flags=re.M)
        open(os.path.join(dst, "src/libcatnip/calcJconfig.hpp"), "w").write(t)

def lib_sources(root):
    r = []
    base = os.path.join(root, "src/libcatnip")
    for d, _, fs in os.walk(base):
        for f in fs:
            if f.endswith(".cpp"): r.append(os.path.join(d, f))
    m = os.path.join(root, "src/tools/main.cpp")
    if os.path.exists(m): r.append(m)
    return sorted(r)

def tree_hash(root, extra):
    h = hashlib.sha256()
    for d, dn, fs in os.walk(root):
        dn.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read())
    for e in extra: h.update(e.encode() if isinstance(e, str) else e)
    return h.hexdigest()[:24]

class BuildError(Exception): pass

def cached(key, suffix, make):
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    p = os.path.join(BUILD, "cache", key + suffix)
    if os.path.exists(p):
        try: os.utime(p)
        except OSError: pass
        return p
    tmp = p + ".%d.tmp" % os.getpid() + suffix
    make(tmp)
    os.replace(tmp, p)
    return p

def prune():
    try:
        fs = sorted(glob.glob(os.path.join(BUILD, "cache", "*")), key=os.path.getmtime)
        tot = sum(os.path.getsize(f) for f in fs)
        while fs and tot > 1500e6:
            f = fs.pop(0); tot -= os.path.getsize(f); os.remove(f)
    except OSError: pass

ex2 = ThreadPoolExecutor(max_workers=8)
def compile_one(cmd, what):
    r = sh(cmd)
    if r.returncode: raise BuildError(what + ":\n" + r.stderr[-3000:])

def compile_many(jobs, ex):
    """jobs: list of (cmd, what)"""
    def one(j):
        r = sh(j[0])
        if r.returncode: raise BuildError(j[1] + ":\n" + r.stderr[-3000:])
    for f in [ex.submit(one, j) for j in jobs]: f.result()

def build_lib(work, ex):
    """(bitcode library, native object archive), from the snapshot in work"""
    src = os.path.join(work, "src")
    inc = b"".join(open(f, "rb").read() for f in sorted(glob.glob(os.path.join(VERIF, "rt/include/**/*"), recursive=True)) if os.path.isfile(f))
    h = tree_hash(src, [" ".join(BCFLAGS), " ".join(NATFLAGS), inc])
    srcs = lib_sources(work)
    # every object is cached under its own source, all headers and the flags
    texts = {f: open(f, "rb").read() for d, _, fs in os.walk(src) for f in (os.path.join(d, x) for x in fs)}
    inclcpp = any(re.search(rb'#\s*include\s*["<][^">]*\.(cpp|cc|cxx|c)[">]', t) for t in texts.values())
    hd = hashlib.sha256(inc + (" ".join(BCFLAGS) + "|" + " ".join(NATFLAGS)).encode())
    for f in sorted(texts):
        if inclcpp or not f.endswith(".cpp"): hd.update(os.path.relpath(f, work).encode()); hd.update(texts[f])
    def key(s):
        k = hd.copy(); k.update(os.path.relpath(s, work).encode()); k.update(texts[s]); return k.hexdigest()[:24]
    def objects(suffix, cmd):
        return list(ex2.map(lambda s: cached(key(s), suffix, lambda out: compile_one(cmd + [s, "-o", out], s)), srcs))
    def mkbc(out):
        r = sh([tool("llvm-link"), "-o", out] + objects(".bc", [CLANG] + BCFLAGS))
        if r.returncode: raise BuildError(r.stderr[-3000:])
    def mknat(out):
        objs = []
        for i, o in enumerate(objects(".o", ["g++"] + NATFLAGS + ["-Dmain=calcJ_main"])):
            n = os.path.join(work, "n%d.o" % i); shutil.copy(o, n); objs.append(n)
        r = sh(["ar", "rcs", out] + objs)
        if r.returncode: raise BuildError(r.stderr[-3000:])
    return h, (lambda: cached(h, ".lib.bc", mkbc)), (lambda: cached(h, ".lib.a", mknat))

def build_engine():
    r = sh(["bash", os.path.join(VERIF, "scripts/build_engine.sh")])
    if r.returncode: raise BuildError("engine: " + r.stderr[-3000:])

def rt_bc():
    s = os.path.join(VERIF, "rt/rt.cpp")
    inc = b"".join(open(f, "rb").read() for f in sorted(glob.glob(os.path.join(VERIF, "rt/include/**/*"), recursive=True)) if os.path.isfile(f))
    h = hashlib.sha256(open(s, "rb").read() + inc + " ".join(BCFLAGS).encode()).hexdigest()[:24]
    def mk(out):
        r = sh([CLANG] + BCFLAGS + ["-fno-builtin", s, "-o", out])
        if r.returncode: raise BuildError(r.stderr[-3000:])
    return cached(h, ".rt.bc", mk)

def native_rt(ex=None):
    s = os.path.join(VERIF, "rt/native.cpp")
    h = hashlib.sha256(open(s, "rb").read() + open(os.path.join(VERIF, "rt/symx.h"), "rb").read() + " ".join(NATFLAGS).encode()).hexdigest()[:24]
    def mk(out):
        r = sh(["g++"] + NATFLAGS + [s, "-o", out])
        if r.returncode: raise BuildError(r.stderr[-3000:])
    return cached(h, ".nrt.o", mk)

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    keep = "--keep" in args
    only = None
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    if "--only" in args: only = args[args.index("--only") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vp_%s_" % pid)
    try:
        rc = run(pid, spec, tier, seed, work, t0, only)
    except BuildError as e:
        print("ERROR: could not build: %s" % e)
        rc = 2
    finally:
        if keep: print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
        prune()
    sys.exit(rc)

def load_known():
    p = os.path.join(VERIF, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\S+) entry=(\S+) label=(\S+)(?: match=(\S+))? :: (.*)", l)
            if m: r.append(m.groups())
    return r

def run(pid, spec, tier, seed, work, t0, only):
    snapshot(work)
    replay_deadline[0] = t0 + (840 if tier == "quick" else 7 * 3600)
    deadline = t0 + (600 if tier == "quick" else 6 * 3600)
    exb = ThreadPoolExecutor(max_workers=8)
    with ThreadPoolExecutor(max_workers=8) as ex:
        fe = exb.submit(build_engine)
        frt = exb.submit(rt_bc)
        fnr = exb.submit(native_rt)
        h, mkbc, mknat = build_lib(work, ex)
        fbc = exb.submit(mkbc)
        hs = os.path.join(VERIF, "harness", spec["harness"])
        hflags = ["-I" + os.path.join(VERIF, "rt"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(work, "src"), "-I" + os.path.join(work, "src/libcatnip")]
        hbc, hnat = os.path.join(work, "h.bc"), os.path.join(work, "h.o")
        fh = exb.submit(compile_many, [([CLANG] + BCFLAGS + ["-Umain"] + hflags + [hs, "-o", hbc], hs)], ex)
        fe.result(); rt = frt.result(); bc = fbc.result(); fh.result(); fnr.result()
    runs = [r for r in spec["runs"] if (tier in r.get("tiers", ("quick", "thorough"))) and (only is None or r["entry"] == only)]
    entries = sorted(set(r["entry"] for r in runs))
    mod = os.path.join(work, "m.bc")
    r = sh([tool("llvm-link"), "-o", mod + ".l", hbc, bc, rt])
    if r.returncode: raise BuildError(r.stderr[-3000:])
    r = sh([tool("opt"), "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify,dce)", "-internalize-public-api-list=" + ",".join(entries + ["_ZSt17__throw_bad_allocv"]), mod + ".l", "-o", mod])
    if r.returncode: raise BuildError(r.stderr[-3000:])
    # native build proceeds in the background
    exn = ThreadPoolExecutor(max_workers=4)
    def natbuild():
        with ThreadPoolExecutor(max_workers=6) as e2:
            global_ex[0] = e2
            h2, _, mkn = build_lib(work, e2)
            f = e2.submit(compile_many, [(["g++"] + NATFLAGS + hflags + [hs, "-o", hnat], hs)], e2)
            a = mkn(); f.result()
        exe = os.path.join(work, "replay")
        r = sh(["g++", "-fsanitize=address", "-rdynamic", "-Wl,--wrap=exit", hnat, native_rt(), "-Wl,--whole-archive", a, "-Wl,--no-whole-archive", "-ldl", "-o", exe])
        if r.returncode: raise BuildError(r.stderr[-3000:])
        return exe
    fnat = exn.submit(natbuild)
    # symbolic runs
    def symrun(i, rr):
        out = os.path.join(work, "out%d.json" % i)
        tmo = rr.get("timeout", 400 if tier == "quick" else 3600)
        tmo = max(20, min(tmo, deadline - time.time() - 30))
        cmd = [os.path.join(BUILD, "symx"), mod, "--entry", rr["entry"], "--mode", rr.get("mode", "real"), "--out", out, "--timeout", str(tmo),
               "--z3-timeout", str(rr.get("z3_timeout", 20000 if tier == "quick" else 120000)), "--max-instrs", str(rr.get("max_instrs", 20000000)), "--max-witness", str(rr.get("max_witness", 24 if tier == "quick" else 60))]
        for k, v in rr.get("params", {}).items(): cmd += ["--param", "%s=%d" % (k, v)]
        try:
            r = sh(cmd, timeout=tmo + 40)
            if not os.path.exists(out): return {"error": "engine exit %d: %s" % (r.returncode, (r.stderr or r.stdout)[-800:])}
            return json.load(open(out))
        except subprocess.TimeoutExpired:
            if os.path.exists(out): return json.load(open(out))
            return {"error": "engine timeout"}
    results = [None] * len(runs)
    with ThreadPoolExecutor(max_workers=int(os.environ.get("VP_JOBS", "8"))) as ex:
        fut = {ex.submit(symrun, i, rr): i for i, rr in enumerate(runs)}
        for f in as_completed(fut): results[fut[f]] = f.result()
    exe = fnat.result()
    # replay
    jobs, meta = [], {}
    def addjob(jid, rr, inputs):
        L = ["J %s %s" % (jid, rr["entry"])]
        for k, v in rr.get("params", {}).items(): L.append("P %s %d" % (k, v))
        if rr.get("mode") == "fp": L.append("P __fp 1")
        for x in inputs: L.append("%s %s %s" % (x["k"], x["n"], x["v"]))
        L.append("E")
        return "\n".join(L) + "\n"
    for i, (rr, res) in enumerate(zip(runs, results)):
        if "error" in res: continue
        for j, v in enumerate(res["violations"]):
            jid = "v%d_%d" % (i, j); meta[jid] = ("v", i, j); jobs.append(addjob(jid, rr, v["inputs"]))
        for j, w in enumerate(res["witnesses"]):
            jid = "w%d_%d" % (i, j); meta[jid] = ("w", i, j); jobs.append(addjob(jid, rr, w["inputs"]))
    reports = replay(exe, work, jobs, {})
    # counterexamples that did not reproduce may depend on memory contents: retry with fill patterns
    again = [(jid, job) for jid, job in zip([re.match(r"J (\S+)", j).group(1) for j in jobs], jobs) if meta[jid][0] == "v" and not failing(reports.get(jid, []))]
    for fill in (0x00, 0xff, 0x41):
        if not again: break
        r2 = replay(exe, work, [j for _, j in again], {"ASAN_OPTIONS": ASAN + ":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill})
        for jid, _ in again:
            if failing(r2.get(jid, [])): reports[jid] = r2[jid]
        again = [a for a in again if not failing(reports.get(a[0], []))]
    known = load_known()
    viol, unconf, mism, validated, kn = [], [], [], 0, []
    for jid, (kind, i, j) in sorted(meta.items()):
        rep = reports.get(jid)
        rr, res = runs[i], results[i]
        if kind == "v":
            v = res["violations"][j]
            f = failing(rep or [])
            if not f: unconf.append((rr, v, rep)); continue
            k = None
            for (kp, ke, kl, km, kt) in known:
                if kp == pid and ke == rr["entry"] and kl == v["label"].replace(" ", "_") and (km is None or km in json.dumps(v)): k = kt
            if k: kn.append(k)
            else: viol.append((rr, v, f, jobs_by_id(jobs)[jid]))
        else:
            w = res["witnesses"][j]
            f = failing(rep or [])
            if f:
                k = None
                for (kp, ke, kl, km, kt) in known:
                    if kp == pid and ke == rr["entry"] and f[0].startswith("FAIL " + kl.replace("_", " ")[:40]): k = kt
                if k: kn.append(k); continue
                viol.append((rr, {"label": f[0], "detail": "found when replaying a path witness on the real code", "where": "", "inputs": w["inputs"]}, f, jobs_by_id(jobs)[jid])); continue
            ok, why = compare(w, rep or [])
            if ok: validated += 1
            else: mism.append((rr, why, w))
    # evidence
    good = [r for r in results if "error" not in r]
    tot = lambda k: sum(r[k] for r in good)
    fns = sorted(set(f for r in good for f in r["functions"]))
    reach = {}
    for r in good:
        for k, n in r["reach"].items(): reach[k] = reach.get(k, 0) + n
    missing = [l for l in spec.get("reach", []) if not reach.get(l)] if only is None else []
    incon = [x for x in (("%s: %s" % (rr["entry"], res.get("error"))) if "error" in res else None for rr, res in zip(runs, results)) if x]
    for rr, res in zip(runs, results):
        if "error" in res: continue
        nm = rr["entry"] + (str(rr.get("params")) if rr.get("params") else "")
        if res["inconclusive"]: incon.append("%s: %d inconclusive %s" % (nm, res["inconclusive"], res["inconcl_by"]))
        if res["unsupported"]: incon.append("%s: %d unsupported %s" % (nm, res["unsupported"], list(res["unsup"])[:3]))
        if res["timed_out"]: incon.append("%s: time limit with %d pending states" % (nm, res["pending"]))
    samples = []
    for rr, res in zip(runs, results):
        if "error" in res: continue
        for w in res["witnesses"][:2]:
            samples.append({"entry": rr["entry"], "params": rr.get("params", {}), "inputs": {x["n"]: x.get("dec", x["v"]) for x in w["inputs"]}, "observed": {x["n"]: (hexd(x["v"]) if x["k"] == "D" else x["v"]) for x in w["obs"]}})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": tot("paths") + tot("forks") if good else 0, "transitions": tot("instrs") if good else 0, "traces_validated_against_impl": validated, "samples": samples[:12] or [{"none": True}],
                       "paths": tot("paths"), "infeasible_or_assumed_away": tot("pruned"), "functions_encoded": fns, "functions_encoded_count": len(fns),
                       "bounds": spec["bounds"], "outside_bounds": spec.get("outside", ""), "assertions": tot("checks"), "assertions_by_solver": tot("by_solver"), "assertions_by_polynomial_identity": tot("by_identity"), "assertions_folded_on_path": tot("folded"),
                       "solver_queries": tot("queries"), "solver_sat": tot("sat"), "solver_unsat": tot("unsat"), "solver_unknown": tot("unknown"), "solver_time_s": round(sum(r["solver_s"] for r in good), 3),
                       "reach": reach, "inconclusive": incon, "counterexamples_unconfirmed": len(unconf), "witness_mismatches": len(mism),
                       "runs": [{"entry": rr["entry"], "mode": rr.get("mode", "real"), "params": rr.get("params", {}), **({k: res[k] for k in ("paths", "pruned", "queries", "checks", "solver_s", "wall_s")} if "error" not in res else {"error": res["error"]})} for rr, res in zip(runs, results)]},
          "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only is None: json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d paths, %d assertions, %d queries (%.1fs solver), %d functions, %d witnesses validated on the real code, %.1fs" % (pid, tier, tot("paths"), tot("checks"), tot("queries"), sum(r["solver_s"] for r in good), len(fns), validated, time.time() - t0))
    for k in sorted(set(kn)): print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for x in incon: print("INCOMPLETE: " + x[:600])
    for rr, v, rep in unconf[:6]: print("UNCONFIRMED: %s %s: %s at %s | native: %s" % (rr["entry"], v["label"], v["detail"], v["where"][:300], (rep or [])[:4]))
    for rr, why, w in mism[:6]: print("MISMATCH: %s %s %s" % (rr["entry"], why, {x["n"]: x.get("dec", x["v"]) for x in w["inputs"]}))
    if viol:
        rd = os.path.join(VERIF, "build", "replays"); os.makedirs(rd, exist_ok=True)
        seen = set()
        for n, (rr, v, f, job) in enumerate(viol):
            key = (rr["entry"], v["label"])
            if key in seen: continue
            seen.add(key)
            p = os.path.join(rd, "%s_%d.json" % (pid, n))
            json.dump({"property": pid, "entry": rr["entry"], "params": rr.get("params", {}), "mode": rr.get("mode", "real"), "label": v["label"], "detail": v["detail"], "where": v["where"], "inputs": {x["n"]: x.get("dec", x["v"]) for x in v["inputs"]}, "native": f, "job": job}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            print("   %s [%s] %s | native: %s | inputs: %s" % (rr["entry"], v["label"], v["detail"], f[:2], {x["n"]: x.get("dec", x["v"]) for x in v["inputs"]}))
        return 1
    if not good or tot("paths") == 0 or tot("checks") == 0:
        print("ERROR: nothing was checked"); return 2
    if missing and not incon:
        print("ERROR: behaviours never reached: %s" % missing); return 2
    if missing: print("INCOMPLETE: behaviours not reached within the limits: %s" % missing)
    if len(mism) > validated:
        print("ERROR: the model disagrees with the real code"); return 2
    return 0

global_ex = [None]
replay_deadline = [0]
ASAN = "detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=0:detect_stack_use_after_return=0:abort_on_error=0"
def hexd(h): return struct.unpack(">d", bytes.fromhex(h))[0]
def jobs_by_id(jobs): return {re.match(r"J (\S+)", j).group(1): j for j in jobs}

def replay(exe, work, jobs, env):
    if not jobs: return {}
    n = 6; res = {}
    parts = [jobs[k::n] for k in range(n)]
    def one(k):
        if not parts[k]: return {}
        d = tempfile.mkdtemp(prefix="r", dir=work)
        jf, rf = os.path.join(d, "jobs"), os.path.join(d, "rep")
        open(jf, "w").write("".join(parts[k]))
        e = dict(os.environ); e["ASAN_OPTIONS"] = ASAN; e.update(env)
        try: sh([exe, jf, rf, d], env=e, timeout=max(20, min(600, replay_deadline[0] - time.time())))
        except subprocess.TimeoutExpired: pass
        out, cur, jid = {}, None, None
        if os.path.exists(rf):
            for l in open(rf, errors="replace"):
                l = l.rstrip("\n")
                if l.startswith("JOB "): jid = l[4:]; cur = []
                elif l == "END": out[jid] = cur
                elif cur is not None: cur.append(l)
        shutil.rmtree(d, ignore_errors=True)
        return out
    with ThreadPoolExecutor(max_workers=n) as ex:
        for r in ex.map(one, range(n)): res.update(r)
    return res

def failing(rep):
    if any(l.startswith("ASSUME") for l in rep): return []
    f = [l for l in rep if l.startswith("FAIL ")]
    if any(l.startswith(("SIGNAL", "STATUS", "EXIT")) for l in rep): f += [l for l in rep if l.startswith(("SIGNAL", "STATUS", "ERR", "EXIT"))]
    return f

def compare(w, rep):
    if "DONE" not in rep: return False, "native run did not finish: %s" % rep[:3]
    obs = [l.split(" ", 3) for l in rep if l.startswith("OBS ")]
    if len(obs) != len(w["obs"]): return False, "observation count %d vs %d" % (len(obs), len(w["obs"]))
    for o, x in zip(obs, w["obs"]):
        if x["n"] != o[3]: return False, "label %s vs %s" % (o[3], x["n"])
        if x["k"] == "I":
            if int(o[2]) != x["v"]: return False, "%s: native %s, model %s" % (o[3], o[2], x["v"])
        else:
            a, b = float(o[2]), hexd(x["v"])
            if not (a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))): return False, "%s: native %r, model %r" % (o[3], a, b)
    return True, ""

if __name__ == "__main__": main()
