#!/usr/bin/env python3
"""Writes MANIFEST.json.  CLAIMED: property -> (level, technique, note)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from claims import CLAIMED, NOT_APPLICABLE, HOOKS
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        level, tech, note = CLAIMED[i]
        checks.append(dict(property=i,
            quick_cmd="python3 harness/check.py --property %s --tier quick" % i,
            thorough_cmd="python3 harness/check.py --property %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="bash harness/setup.sh", checks=checks,
         not_applicable=na, notes="See DESIGN.md. No hooks in /repo: the checks drive the built program from outside.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
