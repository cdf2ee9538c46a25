#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from plan import PLAN, TECH, LEVEL_NOTES
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN:
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="./check %s --thorough" % i,
                           technique=TECH.get(i, TECH["*"]), level="exploration", level_note=LEVEL_NOTES.get(i, LEVEL_NOTES["*"])))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="No hooks were needed: the checks observe the public interfaces and substitute the table backend; /repo is built as it is.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Runtime monitoring: see DESIGN.md. known_findings.txt lists repaired defects and open findings.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
