#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plans.py."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
import plans
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": plans.TECHNIQUE.get(i, "TLA+ specification checked with TLC; TLC-generated behaviours replayed into the code"),
                       "level": "model_checking", "level_note": plans.NOTE.get(i, "Exhaustive within the bounds of the TLA+ model; the code is checked on the generated behaviours, so assurance beyond them is by sampling.")})
    else:
        na.append({"property": i, "reason": plans.NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the code is driven through its public API", "source_commits": []},
     "checks": checks, "not_applicable": na, "notes": "See DESIGN.md. Quick checks take 5-60 s each."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
