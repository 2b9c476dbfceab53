#!/usr/bin/env python3
"""Driver: builds the harnesses of a property from /repo's working tree, runs them symbolically,
aggregates the verdicts and writes evidence/<id>.json.   usage: check.py PROPERTY | --setup | --list"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
ENG = os.path.join(HERE, "engine")
CLANG = next((c for c in ("/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(c)), "clang++")
LLVMCFG = next((c for c in ("/usr/bin/llvm-config-18", "/usr/lib/llvm-18/bin/llvm-config") if os.path.exists(c)), "llvm-config-18")
REPO_SRC = ["PerTypeStorage.cpp", "OpaqueTickCounter.cpp", "TimerCalibrator.cpp"]
DEFS = ["-D_DEBUG", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(REPO, "include"), "-I" + ENG, "-I" + os.path.join(HERE, "harness")]
from props import PROPS

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[:1500]))
    return r.stdout

def stamp(files):
    h = hashlib.sha1()
    for f in files: h.update(open(f, "rb").read())
    return h.hexdigest()

def engine():
    d = os.path.join(BUILD, "engine"); os.makedirs(d, exist_ok=True)
    want = stamp([os.path.join(ENG, f) for f in ("symfp.cpp", "rt.cpp", "replay.cpp", "sym.h")])
    st = os.path.join(d, "stamp")
    if os.path.exists(st) and open(st).read() == want and all(os.path.exists(os.path.join(d, f)) for f in ("symfp", "rt.o", "replay.o")): return d
    lf = sh([LLVMCFG, "--cxxflags"]).split(); ll = sh([LLVMCFG, "--ldflags", "--libs", "core", "bitreader", "bitwriter", "irreader"]).split()
    jobs = [["g++", "-O1"] + lf + [os.path.join(ENG, "symfp.cpp"), "-o", os.path.join(d, "symfp")] + ll,
            ["g++", "-std=c++17", "-O2", "-w", "-c", os.path.join(ENG, "rt.cpp"), "-o", os.path.join(d, "rt.o")],
            ["g++", "-std=c++14", "-O1", "-w", "-c", os.path.join(ENG, "replay.cpp"), "-o", os.path.join(d, "replay.o")]]
    with cf.ThreadPoolExecutor(3) as ex: list(ex.map(sh, jobs))
    open(st, "w").write(want)
    return d

def build(prop, files, eng, work, validate):
    """returns {harness file: (binary, replay binary, replay command, functions)}"""
    os.makedirs(work, exist_ok=True)
    objs = []
    def repo_obj(f):
        o = os.path.join(work, f + ".o"); src = os.path.join(REPO, "src", f)
        if not os.path.exists(src): return None
        sh(["g++", "-std=c++14", "-O0", "-w"] + DEFS + ["-c", src, "-o", o]); return o
    def sym_build(f):
        b = os.path.join(work, f); src = os.path.join(HERE, "harness", f + ".cpp")
        sh([CLANG, "-std=c++14", "-O0", "-w", "-fno-discard-value-names", "-ffp-contract=off", "-emit-llvm", "-c"] + DEFS + [src, "-o", b + ".bc"])
        sh([os.path.join(eng, "symfp"), b + ".bc", b + ".i.bc", b + ".fns"])
        sh([CLANG, "-O0", "-w", "-c", b + ".i.bc", "-o", b + ".o"])
        os.remove(b + ".bc"); os.remove(b + ".i.bc")
    def replay_obj(f):
        src = os.path.join(HERE, "harness", f + ".cpp")
        cmd = [CLANG, "-std=c++14", "-O0", "-w", "-ffp-contract=off", "-fsanitize=address", "-DSYM_REPLAY"] + DEFS + [src, os.path.join(eng, "replay.o")] + [os.path.join(work, x + ".o") for x in REPO_SRC if os.path.exists(os.path.join(REPO, "src", x))] + ["-o", os.path.join(work, f + ".replay")]
        return cmd
    with cf.ThreadPoolExecutor(8) as ex:
        ro = [ex.submit(repo_obj, f) for f in REPO_SRC]
        sb = {f: ex.submit(sym_build, f) for f in files}
        objs = [o.result() for o in ro if o.result()]
        rp = {f: ex.submit(sh, replay_obj(f)) for f in files} if validate else {}
        for f in files: sb[f].result()
        for f in rp: rp[f].result()
    res = {}
    for f in files:
        b = os.path.join(work, f)
        sh(["g++", b + ".o", os.path.join(eng, "rt.o")] + objs + ["-lgmpxx", "-lgmp", "-o", b + ".sym"])
        fns = [l.split("\t") for l in open(b + ".fns").read().split("\n") if l]
        res[f] = (b + ".sym", b + ".replay", " ".join("'%s'" % x for x in replay_obj(f)), fns)
    return res

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == "--setup": engine(); print("engine built"); return 0
    if sys.argv[1] == "--list": print("\n".join(PROPS)); return 0
    pid = sys.argv[1]; P = PROPS[pid]; t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    if "--thorough" in sys.argv: tier = "thorough"
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    files = P["files"] + (P.get("thorough_files", []) if tier == "thorough" else [])
    eng = engine(); work = os.path.join(BUILD, pid); shutil.rmtree(work, ignore_errors=True)
    validate = "--no-validate" not in sys.argv
    bins = build(pid, files, eng, work, validate)
    out = os.path.join(os.environ.get("VERIF_OUT", os.path.join(HERE, "out")), pid); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    kfile = os.path.join(out, "known.tsv")
    with open(kfile, "w") as k:
        for e in known["findings"]:
            if e["property"] == pid: k.write("%s\t%s\n" % (e["harness"], e["label"]))
    jobs = []
    for f in files:
        for e in sh([bins[f][0], "--list"]).split():
            if e.endswith("_thorough") and tier != "thorough": continue
            if only and e not in only: continue
            jobs.append((f, e))
    budget = P.get("budget", 400) if tier == "quick" else P.get("thorough_budget", 2400)
    failfast = "VERIF_FAILFAST" in os.environ; hit = []   # development aid: stop at the first violation
    def run(j):
        f, e = j
        if hit: return {"harness": e, "status": "error", "error": "skipped", "candidates": [], "file": f, "rc": 0}
        env = dict(os.environ, SYM_KNOWN=kfile, SYM_REPLAY_BIN=bins[f][1], SYM_REPLAY_CMD=bins[f][2], SYM_BUDGET=str(budget), LC_ALL="C.UTF-8")
        if tier == "thorough": env["SYM_THOROUGH"] = "1"; env.setdefault("SYM_ASSERT_TIMEOUT", "60000")
        if validate: env["SYM_VALIDATE"] = "1"
        try: r = subprocess.run([bins[f][0], e, out], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget + 240, errors="replace"); rc, log = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, log = 124, "timeout"
        open(os.path.join(out, e + ".log"), "w").write(log)
        p = os.path.join(out, e + ".json")
        try: rep = json.load(open(p))
        except Exception as x: rep = {"harness": e, "status": "error", "error": "%s; rc %d; %s" % (x, rc, log[-500:]), "candidates": []}
        rep["file"] = f; rep["rc"] = rc
        if failfast and any(c["confirmed"] and not c["known"] for c in rep["candidates"]): hit.append(e)
        return rep
    with cf.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex: reps = list(ex.map(run, jobs))
    # ---- verdict
    viol = [(r, c) for r in reps for c in r["candidates"] if c["confirmed"] and not c["known"]]
    kn = [(r, c) for r in reps for c in r["candidates"] if c["confirmed"] and c["known"]]
    bad = [r for r in reps if r["status"] not in ("ok", "known", "violation")]
    for r in reps:
        print("%-34s %-12s paths %-6d queries %-6d solver %.1fs wall %.1fs" % (r["harness"], r["status"], r.get("paths", 0), r.get("branch_queries", 0) + r.get("assert_queries", 0) + r.get("witness_queries", 0), r.get("solver_s", 0), r.get("wall_s", 0)))
    for r in bad:
        print("  INCONCLUSIVE %s: %s %s %s" % (r["harness"], r.get("error", ""), str(r.get("cut_reasons", ""))[:300], [c["label"] for c in r["candidates"] if not c["confirmed"]][:4]))
    # ---- evidence
    S = lambda k: sum(r.get(k, 0) for r in reps)
    fns = sorted({f for b in bins.values() for f, _ in b[3]})
    dem = subprocess.run(["c++filt"], input="\n".join(fns), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    enc = sorted({re.sub(r"ctm::math::|ctm::", "", d) for d in dem if "ctm::" in d.split("(")[0] and not d.startswith("harness_")})
    labels = {}
    for r in reps:
        for l, v in r.get("labels", {}).items(): labels[r["harness"] + ": " + l] = {"checked": v[0], "discharged_by_solver": v[1], "folded_to_true": v[2]}
    vac = [r["harness"] for r in reps if r["status"] in ("ok", "known") and not r.get("reached")]
    if vac: bad += [r for r in reps if r["harness"] in vac]; print("  VACUOUS (no reach witness): %s" % vac)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "coverage": {
            "states": S("paths") + S("pruned"), "transitions": S("forks") + S("choices"), "traces_validated_against_impl": S("validated"),
            "samples": [s for r in reps for s in [r["harness"] + ": " + x for x in r.get("samples", [])[:2]]][:40],
            "explanation": "states = symbolic paths explored to their end (each stands for all input values satisfying its path condition); transitions = decided forks; traces_validated_against_impl = solver models of completed paths re-run natively on the uninstrumented code with every obligation holding.",
            "paths_completed": S("paths"), "paths_pruned_by_assumption": S("pruned"), "paths_cut": S("cut"),
            "queries": {"branch": S("branch_queries"), "obligation": S("assert_queries"), "witness": S("witness_queries"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"), "linear_over_monomials": S("lra_queries"), "nonlinear_or_fp": S("nra_queries")},
            "solver_s": round(S("solver_s"), 2), "symbolic_operations": S("symbolic_ops"), "native_validation_disagreements": S("validation_miss"),
            "functions_encoded": len(enc), "functions_encoded_names": [x[:160] for x in enc][:120],
            "obligations": labels, "bounds": P["bounds"], "outside": P["outside"], "undecided": [u for r in reps for u in r.get("undecided", [])],
            "harnesses": [{"name": r["harness"], "status": r["status"], "mode": r.get("mode"), "paths": r.get("paths"), "cut_reasons": r.get("cut_reasons"), "reached": r.get("reached"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"), "notes": r.get("notes")} for r in reps],
            "known_findings": [c["label"] for _, c in kn], "exhaustive": False},
          "assumptions": P["assumptions"] + sorted({s for r in reps for s in r.get("stubs", [])}) + (["every symbolic divisor is assumed non-zero in REAL mode (%d divisions)" % S("div_assumed_nonzero")] if S("div_assumed_nonzero") else [])}
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if not os.environ.get("VERIF_KEEP") and not viol and not bad: shutil.rmtree(work, ignore_errors=True)
    for r, c in kn:
        e = next(k for k in known["findings"] if k["property"] == pid and k["harness"] == r["harness"] and k["label"] in c["label"])
        print("KNOWN-FINDING: property=%s %s" % (pid, e["what"]))
    for r, c in viol:
        print("  %s: %s (%s)\n    inputs: %s" % (r["harness"], c["label"], c["why"], open(c["file"]).read().replace("\n", "; ")[:800] if c["file"] and os.path.exists(c["file"]) else ""))
        print("    %s" % c["out"].strip().replace("\n", "\n    ")[:800])
    if viol:
        print("VIOLATION property=%s replay=%s" % (pid, viol[0][1]["file"])); return 1
    if bad: return 2
    print("property %s held: %d paths, %d obligations queries, %.1fs solver, %.1fs total" % (pid, S("paths"), S("assert_queries"), S("solver_s"), time.time() - t0))
    return 0

if __name__ == "__main__":
    try: rc = main()
    except RuntimeError as e: print(e); rc = 2
    sys.exit(rc)
