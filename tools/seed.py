#!/usr/bin/env python3
"""Plant a bug: seed.py FILE.  FILE (python) sets ID, PROP, EDITS=[(file, old, new[, nth])], DEMO (C++), NEEDS, BREAKS[, FLAGS].
Confirms in a scratch copy of /repo that it builds, passes the stable tests, and that the demonstration tells the trees apart;
keeps it under seeded/ID; then runs the property's quick check on the scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO_SH = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"; trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -w %s -I"$PWD/include" "$here/demo.cpp" -o "$d/demo" -lpthread || exit 3
timeout %d "$d/demo"
'''
for f in sys.argv[1:]:
    g = {"FLAGS": "-O1", "TMO": 60}; exec(open(f).read(), g)
    i = g["ID"]; w = tempfile.mkdtemp(prefix="seed."); r = w + "/repo"
    try:
        sh(f"cp -a /repo {r}"); ok = True
        for e in g["EDITS"]:
            p = os.path.join(r, e[0]); s = open(p).read(); n = s.count(e[1])
            if len(e) > 3:
                parts = s.split(e[1]); k = e[3]; s = e[1].join(parts[:k + 1]) + e[2] + e[1].join(parts[k + 1:])
            else:
                if n != 1: print(f"{i}: edit matches {n} times: {e[1]!r}"); ok = False; break
                s = s.replace(e[1], e[2])
            open(p, "w").write(s)
        if not ok: continue
        patch = sh(f"git -C {r} diff").stdout
        sd = os.path.join(w, "sd"); os.makedirs(sd)
        open(sd + "/patch.diff", "w").write(patch); open(sd + "/demo.cpp", "w").write(g["DEMO"]); open(sd + "/demo.sh", "w").write(DEMO_SH % (g["FLAGS"], g["TMO"])); os.chmod(sd + "/demo.sh", 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(sd + "/meta.json", "w"), indent=1)
        a = sh(f"bash {sd}/demo.sh", cwd="/repo"); b = sh(f"bash {sd}/demo.sh", cwd=r)
        if a.returncode != 0 or b.returncode in (0, 3): print(f"{i}: demo clean={a.returncode} planted={b.returncode}\n{a.stdout[-800:]}\n{b.stdout[-800:]}"); continue
        if "--notest" not in os.environ.get("SEED", ""):
            bs = open("/opt/vp/build.sh").read().replace("/repo", r); ts = open("/opt/vp/test.sh").read().replace("/repo", r).replace("/opt/vp/build.sh", w + "/b.sh")
            open(w + "/b.sh", "w").write(bs); open(w + "/t.sh", "w").write(ts)
            sh(f"rm -rf {r}/_build")
            x = sh(f"bash {w}/b.sh && bash {w}/t.sh {w}/out.json")
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            try: o = json.load(open(w + "/out.json"))
            except Exception: print(f"{i}: build or test failed\n{x.stdout[-1500:]}"); continue
            bad = sorted(set(base) - set(o["passed"]))
            if bad: print(f"{i}: tests notice it: {bad[:3]} ({len(bad)})"); continue
        dst = os.path.join(V, "seeded", i); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(sd, dst)
        c = sh(f"python3 {V}/run.py {g['PROP']} --tier quick --no-evidence", env=dict(os.environ, VERIF_REPO=r))
        v = [l for l in c.stdout.splitlines() if l.startswith("unit ")]
        print(f"{i}: KEPT; check {g['PROP']} exit={c.returncode} {'CAUGHT' if c.returncode == 1 else 'MISSED'} {v[:2]}", flush=True)
        if c.returncode != 1: print(c.stdout[-1500:])
    finally: shutil.rmtree(w, ignore_errors=True)
