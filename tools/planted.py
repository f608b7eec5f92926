#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for p in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(p)), m["needs"]))
missed = json.load(open(V + "/tools/missed.json"))
out = ["<!-- planted -->", "| check | planted bug (caught) | first missed; what was added |", "|---|---|---|"]
for p in sorted(rows):
    for id, needs in rows[p]:
        out.append("| %s | %s | %s |" % (p, id, missed.get(id, "")))
out.append("<!-- /planted -->")
d = open(V + "/DESIGN.md").read()
d = re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: "\n".join(out), d, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
