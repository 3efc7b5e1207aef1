#!/usr/bin/env python3
"""Run the solver-based check of one property against /repo's current tree.

  run.py P01 [--tier quick|thorough] [--unit NAME] [--keep]

Every unit of a property is a C++ harness (harness/*.cpp) that drives the real headers in
/repo/include.  It is compiled to LLVM IR on every run, executed symbolically by engine/symx (Z3
decides every branch feasibility, bounds check and assertion), and each counterexample is replayed
on a native build of the same harness and headers before it is reported.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the check itself failed.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
CORES = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 8)

IRFLAGS = ["-std=c++20", "-O1", "-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops",
           "-gline-tables-only", "-w", "-fsanitize=shift,signed-integer-overflow,bounds,unreachable,return,bool,enum,integer-divide-by-zero",
           "-fsanitize-trap=all"]
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_engine():
    exe = os.path.join(VERIF, "build", "symx")
    srcs = [os.path.join(VERIF, "engine", f) for f in ("symx.cpp", "expr.h", "solver.h", "decode.inc", "exec.inc", "natives.inc", "main.inc", "Makefile")]
    h = hashlib.sha256()
    for s in srcs: h.update(open(s, "rb").read())
    stamp = exe + "." + h.hexdigest()[:16]
    if os.path.exists(stamp): return stamp
    os.makedirs(os.path.join(VERIF, "build"), exist_ok=True)
    import fcntl
    with open(os.path.join(VERIF, "build", "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(stamp): return stamp
        for f in os.listdir(os.path.join(VERIF, "build")):
            if f.startswith("symx."): os.unlink(os.path.join(VERIF, "build", f))
        d = tempfile.mkdtemp(prefix="symxb.")
        try:
            for s in srcs: shutil.copy(s, d)
            r = sh(["make", "-C", d, "symx"])
            if r.returncode: print(r.stdout[-3000:]); sys.exit(2)
            shutil.copy(os.path.join(d, "symx"), stamp + ".tmp"); os.rename(stamp + ".tmp", stamp)
        finally: shutil.rmtree(d, ignore_errors=True)
    return stamp

class Slots:
    def __init__(self, n): self.n = n; self.c = threading.Condition()
    def take(self, k):
        with self.c:
            while self.n < k: self.c.wait()
            self.n -= k
    def give(self, k):
        with self.c: self.n += k; self.c.notify_all()

def srcflags(u):
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness")] + ["-D" + d for d in u.get("defs", [])] + u.get("cflags", [])

def compile_ir(u, d):
    src = os.path.join(VERIF, "harness", u["src"])
    bc = os.path.join(d, u["name"] + ".bc")
    fl = [f for f in IRFLAGS if not (u.get("noubsan") and f.startswith("-fsanitize"))]
    if u.get("noubsan"): fl.append("-fno-sanitize=all")
    r = sh(["clang++-18"] + fl + srcflags(u) + ["-emit-llvm", "-c", src, "-o", bc + ".0"])
    if r.returncode: return None, r.stdout
    r = sh(["llvm-link-18", bc + ".0", os.path.join(d, "rt.bc"), "-o", bc])
    if r.returncode: return None, r.stdout
    return bc, ""

REPLAY_MODES = [
    ("asan", ["clang++-18", "-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,alignment"]),
    ("gcc-release", ["g++", "-O1", "-DNDEBUG"]),
    ("gcc-asan", ["g++", "-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,alignment"]),
]
def replay(u, viol, d, params):
    """Run the counterexample on native builds of the same harness and headers.  Returns (confirmed, text)."""
    out = []
    for name, comp in ([("threads", None)] if u.get("threads") else REPLAY_MODES):
        exe, err = build_replay(u, d, name, comp)
        if not exe: out.append(f"[{name}] build failed: {err}"); continue
        rc, txt = run_replay(exe, viol["values"], d, u, params, "cex")
        out.append(f"[{name}] exit {rc}: {txt}")
        if name == "gcc-release" and u.get("uses_live", True) and rc == 77: continue  # live-block counting needs the sanitizer hooks
        if rc not in (0, 90, 91, 92, 93, 94, 95): return True, out[-1]
    return False, "\n".join(out)
def build_replay(u, d, name, comp):
    src = os.path.join(VERIF, "harness", u["src"]); rp = os.path.join(VERIF, "harness", "replay.cpp")
    exe = os.path.join(d, u["name"] + "." + name + ".exe")
    if os.path.exists(exe): return exe, ""
    if u.get("threads"):
        o1, o2 = (os.path.join(d, u["name"] + x) for x in (".h.o", ".r.o"))
        cm = ["-std=c++20", "-O1", "-DNDEBUG", "-g1", "-w"] + srcflags(u) + (["-DSCHED_UNLOCK"] if u.get("sched_unlock") else [])
        for c in (["clang++-18"] + cm + ["-DSYM_REPLAY", "-fsanitize=thread", "-c", src, "-o", o1], ["clang++-18"] + cm + ["-DSYM_THREADS", "-c", rp, "-o", o2], ["clang++-18", o1, o2, "-o", exe, "-lpthread"]):
            r = sh(c)
            if r.returncode: return None, r.stdout[-2000:]
        return exe, ""
    r = sh(comp + ["-std=c++20", "-g1", "-w"] + srcflags(u) + [src, rp, "-o", exe])
    return (None, r.stdout[-2000:]) if r.returncode else (exe, "")

def run_replay(exe, vals, d, u, params, tag):
    vf = os.path.join(d, u["name"] + "." + tag + ".vals")
    with open(vf, "w") as f:
        for n, v in vals: f.write(f"{n} {v}\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=205:alloc_dealloc_mismatch=1:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0", MALLOC_PERTURB_="50")
    try: r = subprocess.run([exe, vf] + [str(p) for p in params], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=u.get("replay_timeout", 20)); return r.returncode, r.stdout.decode("utf8", "replace")[-1200:]
    except subprocess.TimeoutExpired: return 124, "did not terminate within the replay time limit"

def validate(u, wits, d, params):
    """Replay inputs of completed paths on the native build: translator validation."""
    exe, err = build_replay(u, d, "val", REPLAY_MODES[0][1])
    if not exe: return 0, err
    n = 0
    for i, w in enumerate(wits):
        rc, txt = run_replay(exe, w, d, u, params, f"w{i}")
        if rc: return n, f"exit {rc}: {txt}"
        n += 1
    return n, ""

def main():
    if sys.argv[1:] == ["--setup"]: build_engine(); return 0
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--unit"); ap.add_argument("--keep", action="store_true"); ap.add_argument("--list", action="store_true"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float); ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    import units
    t0 = time.time()
    us = [dict(u) for u in units.UNITS[a.prop]]
    if a.list:
        for u in us: print(u["name"]); 
        return 0
    tier = a.tier
    if a.unit: us = [u for u in us if re.fullmatch(a.unit, u["name"])]
    us = [u for u in us if tier in u.get("tiers", ("quick", "thorough"))]
    total = a.budget or (units.BUDGET.get(a.prop, {}).get(tier) or (240 if tier == "quick" else 3000))
    eng = build_engine()
    d = tempfile.mkdtemp(prefix="symx.")
    known = []
    kf = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r"known: property=(\S+) unit=(\S+) match=/(.*?)/ (.*)", l)
            if m and m.group(1) == a.prop: known.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    results = {}; slots = Slots(CORES); lock = threading.Lock(); errors = []; notes = []; viols = []; knownHit = set(); unconf = []
    try:
        r = sh(["clang++-18", "-std=c++20", "-O1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-emit-llvm", "-c", os.path.join(VERIF, "harness", "rt.cpp"), "-o", os.path.join(d, "rt.bc")])
        if r.returncode: print(r.stdout); return 2
        bcs = {}
        def keyof(u): return (u["src"], tuple(u.get("defs", [])), tuple(u.get("cflags", [])), bool(u.get("noubsan")))
        uniq = {}
        for u in us: uniq.setdefault(keyof(u), u)
        with cf.ThreadPoolExecutor(CORES) as ex:
            for k, (bc, err) in zip(uniq, ex.map(lambda u: compile_ir(u, d), uniq.values())):
                bcs[k] = bc
                if bc is None: (notes if uniq[k].get('optional') else errors).append(f"unit {uniq[k]['name']} does not compile against the current tree:\n{err[-2500:]}")
        for n in notes: print("note: " + n)
        def run_unit(u):
            bc = bcs[keyof(u)]
            if bc is None: return
            j = min(CORES, u.get("jobs", 1))
            slots.take(j)
            try:
                left = total - (time.time() - t0)
                budget = max(10.0, min(left, u.get("time", {}).get(tier, 1e9) if isinstance(u.get("time"), dict) else u.get("time", 1e9)))
                params = u.get("params", []); params = params.get(tier, params.get("quick")) if isinstance(params, dict) else params
                out = os.path.join(d, u["name"] + ".json")
                cmd = [eng, f"--out={out}", f"--timeout={budget:.0f}", f"--jobs={j}", "--max-viol=%d" % (400 if any(re.fullmatch(k[0], u["name"]) for k in known) else 1), "--params=" + ",".join(map(str, params))]
                if u.get("entry"): cmd.append("--entry=" + u["entry"])
                if u.get("max_inst"): cmd.append(f"--max-inst={u['max_inst']}")
                if u.get("sched_unlock"): cmd.append("--sched-unlock=1")
                cmd += u.get("engine", []) + [bc]
                try: r = sh(cmd, timeout=budget + 120)
                except subprocess.TimeoutExpired: r = None
                if r is None or r.returncode or not os.path.exists(out):
                    with lock: errors.append(f"unit {u['name']}: engine failed ({'timeout' if r is None else r.returncode}) {'' if r is None else r.stdout[-1500:]}")
                    return
                res = json.load(open(out))
                res["params"] = params
                tried = {}; confirmed = False
                for v in res["violations"]:
                    sig = f"{v['kind']}|{v['msg']}|{v['where']}"
                    hit = None
                    for ku, kr, kt in known:
                        if re.fullmatch(ku, u["name"]) and kr.search(sig): hit = kt
                    if hit: knownHit.add(hit); continue
                    # one confirmed violation per unit is enough; few attempts per kind, so that replays stay cheap
                    if confirmed or tried.get(sig, 0) >= 3 or sum(tried.values()) >= 8: continue
                    tried[sig] = tried.get(sig, 0) + 1
                    ok, txt = replay(u, v, d, params)
                    confirmed = confirmed or ok
                    if not ok:
                        with lock: unconf.append((u["name"], sig, txt))
                        continue
                    rd = os.path.join(VERIF, "evidence", "replays"); os.makedirs(rd, exist_ok=True)
                    rp = os.path.join(rd, f"{a.prop}-{u['name']}.json")
                    json.dump({"property": a.prop, "unit": u["name"], "source": "harness/" + u["src"], "defs": u.get("defs", []), "params": params, "kind": v["kind"], "message": v["msg"], "where": v["where"], "inputs": v["values"], "native_replay": txt}, open(rp, "w"), indent=1)
                    with lock: viols.append((u["name"], sig, rp, txt))
                if not res["violations"] and res.get("witness_inputs") and (u.get("validate") or tier == "thorough"):
                    n, bad = validate(u, res["witness_inputs"], d, params)
                    res["validated"] = n
                    if bad:
                        with lock: unconf.append((u["name"], "translator validation: native run of a completed path disagrees", bad))
                with lock: results[u["name"]] = res
                if a.v:
                    print(f"  {u['name']}: paths={res['paths']} q={res['solver_queries']} solver={res['solver_s']}s wall={res['wall_s']}s timed_out={res['timed_out']} unsup={sum(res['unsupported'].values())} covers={len(res['covers'])} viol={len(res['violations'])}", flush=True)
                    for m in list(res["unsupported"])[:6]: print("     unsupported:", m)
            finally: slots.give(j)
        with cf.ThreadPoolExecutor(CORES) as ex:
            list(ex.map(run_unit, us))
    finally:
        if a.keep: print("kept", d)
        else: shutil.rmtree(d, ignore_errors=True)
    # vacuity: every expected witness must have been reached when the exploration was complete
    incomplete = [n for n, r in results.items() if r["timed_out"] or r["states_left"] or r.get("worker_lost") or r["solver_unknown"] or r["paths_unsupported"]]
    for u in us:
        r = results.get(u["name"])
        if r is None or r["violations"]: continue
        miss = [c for c in u.get("covers", []) if c not in r["covers"]]
        if miss and u["name"] not in incomplete: errors.append(f"unit {u['name']}: expected witnesses not reached: {miss}")
        if r["paths_complete"] == 0 and not r["violations"]: errors.append(f"unit {u['name']}: no path completed")
    if not a.unit and not a.no_evidence: write_evidence(a.prop, tier, us, results, viols, knownHit, unconf, incomplete, errors, time.time() - t0)
    for k in sorted(knownHit): print(f"KNOWN-FINDING: property={a.prop} {k}")
    tot = lambda k: sum(r[k] for r in results.values())
    if results:
        print(f"{a.prop} [{tier}] units={len(results)} paths={tot('paths')} queries={tot('solver_queries')} unsat={tot('solver_unsat')} sat={tot('solver_sat')} solver={tot('solver_s'):.1f}s wall={time.time()-t0:.1f}s incomplete={len(incomplete)}")
    for n in incomplete: r = results[n]; print(f"note: unit {n} not exhausted within its budget (left={r['states_left']}, unknown={r['solver_unknown']}, unsupported={dict(list(r['unsupported'].items())[:3])})")
    for n, sig, txt in unconf: print(f"note: unit {n}: solver counterexample did not reproduce natively, not reported: {sig}\n{txt[-800:]}")
    for n, sig, rp, txt in viols: print(f"unit {n}: {sig}\n  replay: {txt[-600:]}\nVIOLATION property={a.prop} replay={rp}")
    if viols: return 1
    for e in errors: print("error:", e)
    return 2 if errors else 0

def write_evidence(prop, tier, us, results, viols, knownHit, unconf, incomplete, errors, wall):
    import units
    fns = sorted({f for r in results.values() for f in r["functions"]})
    lines = {l for r in results.values() for l in r["lines"]}
    if os.environ.get("VERIF_LINES"): json.dump({n: {"wall": r["wall_s"], "lines": sorted(r["lines"])} for n, r in results.items()}, open(os.path.join(os.environ["VERIF_LINES"], prop + "." + tier), "w"))  # for coverage analysis and mutation runs
    tot = lambda k: sum(r[k] for r in results.values())
    samples = []
    for u in us:
        r = results.get(u["name"])
        if r: samples.append({"unit": u["name"], "harness": u["src"], "defs": u.get("defs", []), "bounds": u.get("bounds", ""), "params": r["params"], "paths": r["paths"], "complete_paths": r["paths_complete"], "assertions_discharged": r["asserts_checked"], "solver_queries": r["solver_queries"], "unsat": r["solver_unsat"], "sat": r["solver_sat"], "unknown": r["solver_unknown"], "solver_s": r["solver_s"], "max_query_s": r["max_query_s"], "wall_s": r["wall_s"], "exhausted": u["name"] not in incomplete, "witnesses": r["covers"]})
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": tot("paths") + tot("forks"), "transitions": tot("instructions"), "traces_validated_against_impl": sum(r.get("validated", 0) for r in results.values()), "samples": samples,
                       "exhaustive": bool(results) and not incomplete and not errors,
                       "explanation": "path-wise symbolic execution of the LLVM IR compiled from /repo's current headers; Z3 decides every branch feasibility, memory-bounds check and assertion over all values of the symbolic inputs; a unit marked exhausted had every feasible path within its stated bounds explored. states = paths plus forks, transitions = IR instructions executed symbolically.",
                       "functions_encoded": fns,
                       "measured": {"units": len(results), "units_exhausted": len(results) - len(incomplete), "paths": tot("paths"), "complete_paths": tot("paths_complete"), "assertions_discharged": tot("asserts_checked"), "assertion_queries": tot("assert_queries"), "solver_queries": tot("solver_queries"), "solver_unsat": tot("solver_unsat"), "solver_sat": tot("solver_sat"), "solver_unknown": tot("solver_unknown"), "solver_s": round(tot("solver_s"), 2), "gtl_functions_encoded": len(fns), "gtl_lines_executed": len(lines)}},
          "wall_s": round(wall, 2), "assumptions": units.ASSUMPTIONS + units.EXTRA_ASSUMPTIONS.get(prop, []),
          "violations": len(viols), "violation_details": [{"unit": n, "what": s, "replay": rp} for n, s, rp, _ in viols],
          "known_findings": sorted(knownHit), "unconfirmed": [{"unit": n, "what": s} for n, s, _ in unconf], "incomplete_units": incomplete, "errors": errors}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
if __name__ == "__main__": sys.exit(main())
