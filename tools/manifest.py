#!/usr/bin/env python3
"""Writes MANIFEST.json from the property table and the list of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NA
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(property=i,
            quick_cmd="python3 tools/check.py run %s --tier quick" % i,
            thorough_cmd="python3 tools/check.py run %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=s["technique"], level="exploration", level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "No check has been built for it yet.")))
m = dict(version=1, setup_cmd="python3 tools/check.py build", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every monitor observes the library's public state and results. "
               "The commits in /repo are repairs of defects these checks report; known_findings.txt lists them.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable:", [n["property"] for n in na])
