#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from registry import REG, NA
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in REG:
        r = REG[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": r["technique"], "level": r["level"], "level_note": r["note"] or ("Bounded exhaustive: " + r["bounds"].get("quick", "") + ". " + " ".join(r["assumptions"]))})
    else: m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
