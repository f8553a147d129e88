#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
Outcomes are those of the last run of the quick check of the named property: MISSED lists the exceptions."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set()
p = V + "/DESIGN.md"
t = open(p).read()
i = t.index("| id | property | needs | quick check |")
rows = ["| id | property | needs | quick check |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], "missed" if d in MISSED else "caught"))
open(p, "w").write(t[:i] + "\n".join(rows) + "\n")
