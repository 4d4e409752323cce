#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in mon/checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = json.load(open(os.path.join(HERE, "tools", "technique.json")))
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "mon", "checks", i + ".py")):
        t = TECH[i]
        checks.append(dict(
            property=i,
            quick_cmd="./run.py %s --tier quick" % i,
            thorough_cmd="./run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=t[0], level=t[2] if len(t) > 2 else "exploration", level_note=t[1]))
    else:
        na.append(dict(property=i, reason=TECH.get(i + "-na", "check not built yet; runtime monitoring does apply")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Runtime monitoring only; see DESIGN.md. No hooks in /repo: every monitor observes public interfaces, wire bytes and module attributes wrapped at run time in the harness process.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
