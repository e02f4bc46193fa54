#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NOT_APPLICABLE = {}
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in CHECKS:
        c = CHECKS[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(p, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
hooks = os.path.join(V, "tools", "hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
