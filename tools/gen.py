#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import P
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for (i, title, st, over, q, why, files, mech, obs, note) in P:
        assert len(title) <= 80, title
        f.write(json.dumps({"id": i, "title": title, "statement": st,
            "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": obs, "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./check.sh build",
     "checks": [{"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                 "technique": "bounded exhaustive model checking of the real implementation: enumeration of all programs/inputs and operation histories within bounds, against a reference model",
                 "level": "model_checking", "level_note": note} for (i, _t, _s, _o, _q, _w, _f, _m, _ob, note) in P],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything is driven through the public API. check.sh builds mc/ against /repo's working tree into target/ (ignored by git). Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
