#!/usr/bin/env python3
"""Regenerates MANIFEST.json from runs.py, properties.jsonl and tools/not_applicable.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from runs import RUNS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
p = os.path.join(H, "tools", "not_applicable.json"); na = json.load(open(p)) if os.path.exists(p) else {}
def tech(i):
    fp = any(r.get("fp") for r in RUNS[i])
    return "symbolic execution of the compiled LLVM IR of /repo/src; z3 decides every assertion over all inputs in bounds (%s)" % ("IEEE-754 binary64" if fp else "non-linear real arithmetic and integers")
checks, nas = [], []
for q in props:
    i = q["id"]
    if i in RUNS and i not in na:
        b = "; ".join("%s: %s" % (r["name"], r.get("bounds", "")) for r in RUNS[i])
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "technique": tech(i), "level": "model_checking", "level_note": ("Bounded: " + b + ". Exact for real arithmetic on symbolic values unless stated otherwise; executor, z3 and clang trusted.")[:1500]})
    else: nas.append({"property": i, "reason": na.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": nas}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(nas), "not applicable")
