#!/usr/bin/env python3
# writes /verif/MANIFEST.json from units.py (claimed properties) and properties.jsonl
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import units
NA = {}
NOTE = "Bounded: every feasible path and every value of the symbolic inputs within the unit's stated bounds (units.py, evidence 'bounds'); larger histories, sizes and other element types are outside. Counterexamples are replayed on a native build before they are reported."
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in units.UNITS:
        th = any(u.get("threads") for u in units.UNITS[i])
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick", "thorough_cmd": f"python3 run.py {i} --tier thorough", "evidence_file": f"evidence/{i}.json",
                       "technique": "symbolic execution of the real code's LLVM IR with an SMT solver (Z3)" + (", thread interleavings as symbolic scheduler choices" if th else "") + ", native replay of counterexamples",
                       "level": "model_checking", "level_note": NOTE})
    else: na.append({"property": i, "reason": NA.get(i, "not yet built")})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "All checks share engine/symx (an LLVM-IR symbolic executor on Z3, built by setup_cmd or on first use). See DESIGN.md. Repairs of defects found are the fix: commits in /repo, listed in known_findings.txt; there are no hooks in /repo."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
