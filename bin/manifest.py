#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from checks import CHECKS, TECH, NA
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "bin/check %s --tier quick" % p, "thorough_cmd": "bin/check %s --tier thorough" % p,
                       "technique": TECH[c["tech"]], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m py_compile bin/check bin/checks.py bin/manifest.py", "checks": checks, "not_applicable": na,
           "notes": "Every command builds /repo's current tree out of tree (under /verif/build, git-ignored) and needs no hooks in /repo."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
