#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1,
     "setup_cmd": "python3 check.py --list",
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
