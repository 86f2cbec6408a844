#!/usr/bin/env python3
"""Write MANIFEST.json from jobs.py (development helper)."""
import json, os
from jobs import JOBS
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
from texts import TECH, NOTE, DEFAULT_TECH, DEFAULT_NOTE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in JOBS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s quick" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, DEFAULT_TECH),
            "level": JOBS[i].get("level", "model_checking"),
            "level_note": NOTE.get(i, DEFAULT_NOTE),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every check uses the crate's public API. Builds go to /verif/target (ignored by git).",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
