#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/lib"); sys.dont_write_bytecode = True
import registry
NA = {"C30": "", "C31": "", "C32": ""}
NA = registry.NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl") if l.strip()]
checks = []
for i in ids:
    if i in NA: continue
    if i not in registry.PROPS: print("no check yet:", i); NA[i] = "no check has been built for it yet"; continue
    s = registry.PROPS[i]; kinds = {j["kind"] for j in s["jobs"]}
    tech = {"se": "symbolic execution of the compiled code's LLVM IR, decided by Z3/simplex over reals", "cbmc": "bounded model checking of the C source with CBMC (SAT)", "py": "symbolic execution of the Python source with Z3"}
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
        "technique": " and ".join(tech[k] for k in ("se", "cbmc", "py") if k in kinds), "level": s.get("level", "model_checking"), "level_note": "bounds: " + s["bounds"] + ". Outside: " + (s.get("outside") or "nothing stated") + ". Counterexamples are replayed on the natively built code."})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items()) if k in ids],
     "notes": "All checks run from /verif; each builds the instrumented code from /repo's current tree in a temporary directory. No hooks in /repo: the code is instrumented at the level of LLVM IR."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); print(len(checks), "checks")
