#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from plans import TECHNIQUE, NOTE, LEVEL
checks = []
for p in sorted(TECHNIQUE):
    checks.append({"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --thorough" % p,
                   "technique": TECHNIQUE[p], "level": LEVEL.get(p, "exploration"), "level_note": NOTE[p]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
     "notes": "The tier comes from VERIF_TIER or --thorough, the seed from VERIF_SEED. No hooks in /repo: everything is observed from outside the library (interposed calls, guarded memory, sanitizer builds). Known and fixed findings: known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print("%d checks" % len(checks))
