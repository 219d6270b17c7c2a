"""Rewrite the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and tools/seed_notes.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(here, "tools", "seed_notes.json")))
rows = ["| planted bug | property | what breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), notes.get(d, m["property"])))
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE", "<!-- seeds -->\n<!-- /seeds -->")
t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
