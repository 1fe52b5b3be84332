#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]

Decides one property of properties.jsonl on /repo's current tree.
Compiles the harnesses of the property (harness/cNN*.cpp) with the headers of
/repo to LLVM bitcode, executes every harness function symbolically with the
engine bsx, replays counterexamples natively and writes evidence/<id>.json.
Exit 0 held, 1 violated (VIOLATION line), 2 no verdict.
"""
import glob, hashlib, json, os, re, shlex, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("BSX_REPO", "/repo")
ENG = os.path.join(V, "engine")
BLD = os.path.join(V, "build")
INC = ["-I" + REPO, "-I/usr/include/eigen3", "-I" + ENG, "-I" + os.path.join(V, "harness")]
BCF = ["-std=c++11", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
       "-ffp-contract=off", "-fno-math-errno", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_CPUID", "-w", "-gline-tables-only", "-emit-llvm", "-c"]
LIM = ["bash", "-c", 'ulimit -v 60000000; exec "$0" "$@"']


def log(*a):
    print(*a, flush=True)


def engine():
    h = hashlib.sha256()
    for f in sorted(glob.glob(ENG + "/*")):
        h.update(open(f, "rb").read())
    want = h.hexdigest()
    stamp = os.path.join(BLD, "stamp")
    exe = os.path.join(BLD, "bsx")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == want:
        return exe
    os.makedirs(BLD, exist_ok=True)
    r = subprocess.run(["make", "-C", ENG, "-B", "OUT=" + BLD], capture_output=True, text=True)
    if r.returncode:
        log(r.stdout[-2000:], r.stderr[-4000:])
        log("ERROR engine does not build")
        sys.exit(2)
    open(stamp, "w").write(want)
    return exe


def parse(prop, tier):
    fns = []
    for src in sorted(glob.glob(os.path.join(V, "harness", prop.lower() + "*.cpp"))):
        text = open(src).read()
        flags = []
        m = re.search(r"^//! flags=(.*)$", text, re.M)
        if m:
            flags = shlex.split(m.group(1))
        for m in re.finditer(r"^//! (fn=.*)$", text, re.M):
            d = {"src": src, "flags": flags}
            for t in shlex.split(m.group(1)):
                k, _, v = t.partition("=")
                d[k] = v
            if d.get("tier", "quick") == "quick" or tier == "thorough":
                fns.append(d)
    return fns


def compile_bc(src, flags, work):
    o = os.path.join(work, os.path.basename(src)[:-4] + ".bc")
    t = time.time()
    r = subprocess.run(["clang++-18"] + BCF + INC + [f for f in flags if not f.startswith("native:")]
                       + ["-ferror-limit=5", src, "-o", o], capture_output=True, text=True)
    return src, o if r.returncode == 0 else None, r.stderr[-3000:], time.time() - t


NATIVE = {
    "plain": (["g++", "-std=c++11", "-O0", "-g1"], {}),
    "san": (["g++", "-std=c++11", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-D_GLIBCXX_ASSERTIONS"], {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=97"}),
}


def compile_native(src, flags, kind, work):
    o = os.path.join(work, os.path.basename(src)[:-4] + "." + kind)
    if os.path.exists(o):
        return o
    cmd = NATIVE[kind][0] + ["-w"] + INC + [f.replace("native:", "") for f in flags if not f.startswith("bc:")] + [
        src, os.path.join(ENG, "bsx_native.cpp"), "-rdynamic", "-ldl", "-o", o]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        log("native build failed", r.stderr[-1500:])
        return None
    return o


def run_native(exe, kind, fn, inputs, work, tag, valgrind=False):
    f = os.path.join(work, "in." + tag)
    with open(f, "w") as h:
        for i in inputs:
            h.write("%s %s\n" % (i["name"], i["value"]))
    env = dict(os.environ)
    env.update(NATIVE[kind][1])
    env["MALLOC_PERTURB_"] = "165"
    env["OMP_NUM_THREADS"] = "2"
    d = os.path.join(work, "cwd." + tag)
    os.makedirs(d, exist_ok=True)
    cmd = [exe, fn, f]
    if valgrind:
        cmd = ["valgrind", "-q", "--error-exitcode=98", "--undef-value-errors=yes"] + cmd
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=env, cwd=d, timeout=180)
        rc, out = r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out = 124, "timeout"
    shutil.rmtree(d, ignore_errors=True)
    return rc, out


def known():
    r = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith("{"):
                r.append(json.loads(l))
    return r


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        engine()
        return 0
    prop = a[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    only = a[a.index("--fn") + 1] if "--fn" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = float(os.environ.get("BSX_BUDGET", "840" if tier == "quick" else "7000"))
    exe = engine()
    fns = parse(prop, tier)
    if only:
        fns = [f for f in fns if re.fullmatch(only, f["fn"])]
    if not fns:
        log("ERROR no harness for", prop)
        return 2
    work = os.path.join(BLD, "work.%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return run(prop, tier, seed, t0, budget, exe, fns, work)
    finally:
        if "--keep" not in a:
            shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, t0, budget, exe, fns, work):
    srcs = {}
    for f in fns:
        srcs[f["src"]] = f["flags"]
    bc, bad = {}, 0
    pool = ThreadPoolExecutor(8)
    nat = {s: pool.submit(compile_native, s, fl, "plain", work) for s, fl in srcs.items()} if len(srcs) <= 4 else {}
    for src, o, err, dt in pool.map(lambda s: compile_bc(s, srcs[s], work), srcs):
        if o is None:
            log("ERROR cannot compile", src, err)
            bad = 1
        bc[src] = o
    if not nat:
        nat = {s: pool.submit(compile_native, s, fl, "plain", work) for s, fl in srcs.items()}
    if bad:
        return 2
    tcompile = time.time() - t0

    def one(f):
        out = os.path.join(work, f["fn"])
        left = budget - 60 - (time.time() - t0)
        lim = min(float(f.get("time", 200 if tier == "quick" else 1500)), max(left, 5))
        cmd = [exe, bc[f["src"]], "-fn", f["fn"], "-out", out, "-time", str(lim), "-seed", str(seed),
               "-procs", f.get("procs", "6"), "-qt", f.get("qt", "4000"), "-at", f.get("at", "20000")]
        if f.get("mode") == "fp":
            cmd.append("-fp")
        t = time.time()
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=lim + 60, start_new_session=True)
            rc, err = r.returncode, r.stderr[-1500:]
        except subprocess.TimeoutExpired:
            rc, err = 124, "timeout"
            subprocess.run(["pkill", "-KILL", "-f", out], capture_output=True)
        rec = {"fn": f, "rc": rc, "err": err, "wall": time.time() - t, "lines": [], "sum": None}
        try:
            for l in open(out + ".jsonl", errors="replace"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d["kind"] == "summary":
                    rec["sum"] = d
                else:
                    rec["lines"].append(d)
        except OSError:
            pass
        return rec

    par = ThreadPoolExecutor(int(os.environ.get("BSX_PAR", "4")))
    fns.sort(key=lambda f: -float(f.get("cost", "10")))
    recs = list(par.map(one, fns))

    status = 0
    cnt = {k: 0 for k in ("queries", "qSat", "qUnsat", "qUnknown", "qTimeUs", "paths", "pathsSat", "asserts", "assertConst",
                          "assertNorm", "assertBox", "assertSolver", "forks", "instrs", "inconclusive", "rawCross",
                          "rawCrossUnknown", "concretized", "covers", "divAssumed")}
    funcs, viols, paths, samples, bounds, und = set(), [], [], [], {}, []
    for r in recs:
        f = r["fn"]
        s = r["sum"]
        bounds[f["fn"]] = f.get("bounds", "")
        covers = {l["msg"] for l in r["lines"] if l["kind"] == "cover"}
        for l in r["lines"]:
            if l["kind"] == "fn":
                n = l["name"]
                if "Bembel::" in n or "Eigen::H2" in n:
                    funcs.add(n[:160])
            elif l["kind"] == "violation":
                viols.append((f, l))
            elif l["kind"] == "path":
                paths.append((f, l))
            elif l["kind"] == "inconclusive":
                und.append({"fn": f["fn"], "what": l.get("what"), "msg": l.get("msg"), "where": l.get("where")})
            elif l["kind"] == "error":
                log("ERROR", f["fn"], l.get("what"), l.get("where", ""))
                status = 2
        if s is None or r["rc"] != 0:
            log("ERROR engine failed on", f["fn"], "rc", r["rc"], r["err"])
            status = 2
            continue
        for k in cnt:
            cnt[k] += s.get(k, 0)
        nv = sum(1 for g, _ in viols if g is f)
        if "end" not in covers and not nv and f.get("vacuous") != "ok":
            log("ERROR", f["fn"], "reached no end: nothing was decided")
            status = 2
        log("%-28s %6.1fs paths %d obligations %d (const %d, normal form %d, box %d, smt %d) cross %d/%d queries %d solver %.1fs%s" % (
            f["fn"], r["wall"], s["pathsSat"], s["asserts"], s["assertConst"], s["assertNorm"], s["assertBox"], s["assertSolver"],
            s["rawCross"], s["rawCross"] + s["rawCrossUnknown"], s["queries"], s["qTimeUs"] / 1e6,
            " UNDECIDED %d" % s["inconclusive"] if s["inconclusive"] else ""))

    # counterexamples: run them against the real code
    confirmed, unconf = [], 0
    kn = known()
    seen, jobs = {}, []
    for f, l in viols:
        key = (f["fn"], l["type"], l["msg"], l["where"].split(" < ")[0])
        if seen.get(key, 0) >= 3 or len(jobs) > 60:
            continue
        seen[key] = seen.get(key, 0) + 1
        jobs.append((f, l))
    sanb = {}
    if jobs:
        need = {f["src"]: f["flags"] for f, l in jobs}
        sanb = {s: pool.submit(compile_native, s, fl, "san", work) for s, fl in need.items()}

    def replay(n, f, l):
        tag = "%s.%d" % (f["fn"], n)
        outs = []
        e = nat[f["src"]].result()
        if e:
            rc, out = run_native(e, "plain", f["fn"], l["inputs"], work, tag)
            outs.append(("plain", rc, out))
            if rc not in (0, 4, 9, 124):
                return ("plain", rc, out)
        e = sanb[f["src"]].result()
        if e:
            rc, out = run_native(e, "san", f["fn"], l["inputs"], work, tag)
            outs.append(("san", rc, out))
            if rc not in (0, 4, 9, 124):
                return ("san", rc, out)
        if l["type"] == "uninitialised":
            e = nat[f["src"]].result()
            if e:
                rc, out = run_native(e, "plain", f["fn"], l["inputs"], work, tag, valgrind=True)
                outs.append(("valgrind", rc, out))
                if rc not in (0, 4, 9, 124):
                    return ("valgrind", rc, out)
        return (None, 0, repr([(k, rc, o[-200:]) for k, rc, o in outs]))

    res = list(pool.map(lambda x: replay(x[0], *x[1]), enumerate(jobs)))
    nkn = 0
    bykey = {}
    for (f, l), (how, rc, out) in zip(jobs, res):
        key = (f["fn"], l["type"], l["msg"], l["where"].split(" < ")[0])
        bykey.setdefault(key, []).append((f, l, how, rc, out))
    for key, xs in bykey.items():
        good = [x for x in xs if x[2]]
        if not good:
            unconf += 1
            f, l, how, rc, out = xs[0]
            log("UNCONFIRMED", f["fn"], l["type"], l["msg"], l["where"][:200], {i["name"]: i["value"] for i in l["inputs"]}, out[-600:])
            continue
        f, l, how, rc, out = good[0]
        hit = None
        for k in kn:
            if k.get("property") == prop and k.get("fn") == f["fn"] and k.get("msg") == l["msg"] and k.get("kind", "finding") == "finding":
                w = k.get("inputs", {})
                iv = {i["name"]: i["value"] for i in l["inputs"]}
                if all(str(iv.get(n)) == str(v) for n, v in w.items()):
                    hit = k
        if hit:
            nkn += 1
            log("KNOWN-FINDING: property=%s %s" % (prop, hit.get("what", l["msg"])))
            continue
        d = os.path.join(V, "replay", prop, f["fn"] + "-" + hashlib.sha256(json.dumps(l, sort_keys=True).encode()).hexdigest()[:8])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "inputs.txt"), "w") as h:
            for i in l["inputs"]:
                h.write("%s %s\n" % (i["name"], i["value"]))
        with open(os.path.join(d, "report.json"), "w") as h:
            json.dump({"property": prop, "harness": f["fn"], "violation": l, "native": how, "native_output": out[-3000:]}, h, indent=1)
        kind = "san" if how == "san" else "plain"
        with open(os.path.join(d, "replay.sh"), "w") as h:
            fl = [x.replace("native:", "") for x in f["flags"] if not x.startswith("bc:")]
            h.write("#!/bin/bash\n# rebuilds the harness against /repo and runs it on the solver's input\nd=$(dirname \"$0\")\n%s -w %s %s %s %s -rdynamic -ldl -o \"$d/prog\" && cd \"$d\" && %s./prog %s inputs.txt\n" % (
                " ".join(NATIVE[kind][0]), " ".join(INC), " ".join(fl), f["src"], os.path.join(ENG, "bsx_native.cpp"),
                "valgrind -q --error-exitcode=98 " if how == "valgrind" else "", f["fn"]))
        os.chmod(os.path.join(d, "replay.sh"), 0o755)
        confirmed.append(d)
        log("  %s: %s: %s at %s" % (f["fn"], l["type"], l["msg"], l["where"][:300]))
        log("  inputs:", {i["name"]: i["value"] for i in l["inputs"]})
        log("  native (%s): %s" % (how, out.strip()[:400].replace("\n", " | ")))
        log("VIOLATION property=%s replay=%s" % (prop, d))

    # path models against the real code
    agree = dis = 0
    if not viols:
        pj = paths[:400]

        def pm(x):
            n, (f, l) = x
            e = nat[f["src"]].result()
            if not e or f.get("nopaths"):
                return None
            return run_native(e, "plain", f["fn"], l["inputs"], work, "p%d" % n)
        for (f, l), r in zip(pj, pool.map(pm, enumerate(pj))):
            if r is None:
                continue
            if r[0] in (0,):
                agree += 1
                if len(samples) < 8:
                    samples.append({"harness": f["fn"], "inputs": {i["name"]: i["value"] for i in l["inputs"][:40]}, "native": "agrees"})
            elif r[0] in (4,):
                pass  # rounding moved the input across an assumption
            else:
                dis += 1
                log("DISAGREE", f["fn"], r[0], r[1][-500:], {i["name"]: i["value"] for i in l["inputs"]})
        if dis:
            log("ERROR the real code disagrees with the engine on %d path models" % dis)
            status = 2
    if unconf:
        log("ERROR %d counterexamples did not reproduce" % unconf)
        status = 2
    if confirmed:
        status = 1
    for u in und[:10]:
        log("UNDECIDED", u)
    decided = cnt["assertConst"] + cnt["assertNorm"] + cnt["assertBox"] + cnt["assertSolver"]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": cnt["pathsSat"], "transitions": cnt["forks"] + cnt["concretized"] + cnt["queries"],
            "traces_validated_against_impl": agree,
            "samples": samples or [{"harness": f["fn"], "violation": l["msg"]} for f, l in viols[:4]],
            "rule": "one state per complete symbolic path (its condition has a model); every harness assertion, library assertion, memory access and escaping exception on it is an obligation over all inputs of the path",
            "obligations": cnt["asserts"], "discharged": decided,
            "by_constant": cnt["assertConst"], "by_normal_form": cnt["assertNorm"], "by_linear_relaxation_smt": cnt["assertBox"], "by_smt": cnt["assertSolver"],
            "normal_form_confirmed_by_smt": cnt["rawCross"], "normal_form_not_sent_or_timed_out": cnt["assertNorm"] - cnt["rawCross"],
            "undecided": len(und), "undecided_list": und[:20],
            "queries": cnt["queries"], "queries_unsat": cnt["qUnsat"], "queries_sat": cnt["qSat"], "queries_unknown": cnt["qUnknown"],
            "solver_time_s": round(cnt["qTimeUs"] / 1e6, 2), "paths": cnt["paths"], "instructions": cnt["instrs"],
            "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
            "bounds": bounds, "harness_functions": len(recs), "compile_s": round(tcompile, 1),
        },
        "assumptions": [
            "real mode: floating point operations on symbolic values are exact real arithmetic; concrete operations are IEEE binary64",
            "LLVM IR produced by clang 18 -O1 stands for the source; z3/cvc5 verdicts and the executor are trusted, cross-checked by native replay of path models and by sending normalised obligations to the SMT solver unnormalised",
            "division by a symbolic value assumes it non-zero unless the harness asserts it",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as h:
        json.dump(ev, h, indent=1)
    log("%s: %d obligations, %d discharged, %d undecided, %d violations (%d known), %d path models agree, %.1fs" % (
        prop, cnt["asserts"], decided, len(und), len(confirmed), nkn, agree, time.time() - t0))
    return status


if __name__ == "__main__":
    sys.exit(main())
