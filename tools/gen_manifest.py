#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the properties and the driver map."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
owners = dict(re.findall(r'"(C\d\d)": "(\w+)"', open(os.path.join(V, "drivers/run.py")).read()))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(V, "tools/notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in owners:
        na.append({"property": i, "reason": NOTES.get("na", {}).get(i, "no check yet: its specification module is still to be written")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "bin/check %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough bin/check %s --thorough" % i,
        "technique": "TLA+ specification model-checked with TLC; its behaviours and seeded inputs replayed into the real code; recordings validated by a TLC trace specification",
        "level": "model_checking",
        "level_note": NOTES.get(i, NOTES["default"]),
    })
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "TLA+/TLC throughout; no hooks in /repo (public API only). Genuine defects found are repaired by fix: commits, see known_findings.json."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
