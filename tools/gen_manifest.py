#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
NOTES = json.load(open(f"{V}/tools/level_notes.json"))
checks, missing = [], []
for i in ids:
    if i not in NOTES:
        missing.append({"property": i, "reason": "no check yet"})
        continue
    technique, note = NOTES[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "technique": technique,
        "level": "exploration",
        "level_note": note,
    })
doc = {"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": missing,
       "notes": "All checks use the public API and the wire only; there are no hooks in /repo, only fix: commits."}
json.dump(doc, open(f"{V}/MANIFEST.json", "w"), indent=1)
