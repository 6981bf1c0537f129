#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "lib"))
from levels import LEVELS, NA
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in LEVELS:
        tech, note = LEVELS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech,
                       "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; recorders in harness/ compile /repo's headers at each run. "
              "No hooks in /repo were needed: the library is header-only and the scheduler is interposed at link level."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
