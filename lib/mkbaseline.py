#!/usr/bin/env python3
"""Regenerate lib/baseline_functions.txt (done by hand, only on a tree that has been confirmed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import buildir
bl = os.path.join(buildir.HERE, "baseline_functions.txt")
if os.path.exists(bl):
    os.unlink(bl)
f, _ = buildir.facts_path()
names = set()
for l in open(f):
    o = json.loads(l)
    if o["kind"] == "func" and not o["decl"]:
        names.add(o.get("file", "") + ":" + o.get("cname", o["name"]))
open(bl, "w").write("\n".join(sorted(names)) + "\n")
print(len(names))
