#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and tools/plan.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py %s" % i,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
                       technique=PLAN[i]["technique"], level="exploration", level_note=PLAN[i]["note"]))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
