#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and NOTES below."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
notes = json.load(open(root + "/support/levels.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": notes[i]["technique"],
            "level": "exploration",
            "level_note": notes[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./support/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: library properties use the exported API, the program is driven as a black box. See DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
