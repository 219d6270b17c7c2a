#!/usr/bin/env python3
"""show.py REPLAY.json: print a violation compactly."""
import json, sys
for p in sys.argv[1:]:
    v = json.load(open(p))
    print("==", p, v["property"], v["clause"], v.get("same_clause_failures"))
    c = v["case"]
    for k, x in c.items():
        if k != "obs":
            print("  ", k, ":", json.dumps(x)[:1500])
    print("   obs:", json.dumps(c.get("obs"))[:3000])
    if v.get("detail"):
        print(v["detail"])
