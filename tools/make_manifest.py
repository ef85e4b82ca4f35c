#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(V, "tools", "level_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in NOTES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check is property-based testing: Hypothesis (python3-vt) generates, shrinks and judges; the real code runs in Jython 2.7 worker processes started from /repo/src on every run. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
