#!/usr/bin/env python3
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from plan import PLAN
from notes import NOTES, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "python3 check.py all quick --build-only",
     "checks": [], "not_applicable": []}
for p in sorted(PLAN):
    m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "level": "exploration",
                        "technique": "deterministic simulation with fault injection: seeded schedule and fault search, history and invariant oracles",
                        "level_note": NOTES[p]})
props = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
for p in props:
    if p not in PLAN:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE[p]})
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
