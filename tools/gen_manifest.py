#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from plan import PLAN, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PLAN:
        continue
    p = PLAN[i]
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": p.get("technique", "TLA+ specification model-checked with TLC; traces recorded from the real programs checked against it"),
                   "level": "model_checking", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in PLAN]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
