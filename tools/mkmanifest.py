#!/usr/bin/env python3
"""Write MANIFEST.json from check.py's table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    s = check.SPECS.get(p)
    if s is None:
        na.append(dict(property=p, reason="no check built yet"))
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + p,
                       evidence_file="evidence/%s.json" % p, technique=s["technique"], level=s["level"], level_note=s["note"]))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
