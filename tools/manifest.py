#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (run after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/checks.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for p in props:
    if p in checks:
        c = checks[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
            "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
