#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.registry import CHECKS
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick",
                            "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed")
