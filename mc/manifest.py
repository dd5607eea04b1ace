#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
MC = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(MC)
sys.path.insert(0, MC)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 mc/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks: every harness uses the public API of /repo/include only, and is rebuilt from /repo on every run."}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 mc/run.py %s quick" % p, "thorough_cmd": "python3 mc/run.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
