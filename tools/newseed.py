#!/usr/bin/env python3
"""newseed.py ID PROPERTY FILE <<< JSON{old,new,needs,breaks,demo}: writes seeded/ID from a one-place textual change (helper used while planting)."""
import sys, os, json, subprocess, tempfile, difflib
id, prop = sys.argv[1:3]; spec = json.load(sys.stdin) if len(sys.argv) < 4 else eval(open(sys.argv[3]).read())
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); d = os.path.join(H, "seeded", id); os.makedirs(d, exist_ok=True)
out = ""
byf = {}
for f, old, new in spec["edits"]:
    s = byf.get(f) or open("/repo/" + f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    byf[f] = s.replace(old, new)
for f, s in byf.items():
    a = open("/repo/" + f).read().splitlines(True); out += "".join(difflib.unified_diff(a, s.splitlines(True), "a/" + f, "b/" + f))
open(os.path.join(d, "patch.diff"), "w").write(out)
open(os.path.join(d, "demo.cpp"), "w").write(spec["demo"])
flags = spec.get("flags", "-O1"); srcs = spec.get("srcs", "$(ls src/*.cpp | grep -v Optimise)")
open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# Exit 0 if the library behaves as the property says.\nd=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap \'rm -rf "$t"\' EXIT\ng++ -std=c++11 %s -w %s -I src "$d/demo.cpp" %s -o "$t/demo" || exit 3\ncd "$t" && timeout 60 ./demo\n' % (flags, spec.get("inc", ""), srcs))
json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
