#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property (its check catches it) | manifests with |", "|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")[:160]))
s = open(H + "/DESIGN.md").read()
mark = "<!-- seeded -->"
i = s.index(mark) if mark in s else s.index("@SEEDTABLE@")
open(H + "/DESIGN.md", "w").write(s[:i] + mark + "\n" + "\n".join(rows) + "\n")
