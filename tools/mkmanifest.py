#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V)
import check
NOTE = {}
TECH = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in check.TABLE:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH.get(i, TECH0), level="model_checking", level_note=NOTE.get(i, NOTE0)))
na = [dict(property=i, reason="check under construction") for i in ids if i not in check.TABLE]
m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="none", enable="no hooks: the checks use the public API only", source_commits=[]),
         checks=checks, not_applicable=na, notes="TLA+ with TLC; see DESIGN.md")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
