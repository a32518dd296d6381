#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
NOTE = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in check.CHECKS:
        tech, note = NOTE[p]
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                           evidence_file="evidence/%s.json" % p, technique=tech, level=check.CHECKS[p][2], level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, "not claimed yet: its specification and replayer are not finished")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
               notes="Every check builds its own scratch Go workspace over /repo's current tree; no hooks in /repo are needed."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
