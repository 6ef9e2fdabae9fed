#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (documentation only)."""
import json, os, re
root = os.path.dirname(os.path.abspath(__file__))
notes = json.load(open(os.path.join(root, "seednotes.json")))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, notes.get(d, m["property"]), m["needs"].replace("|", "/").replace("\n", " ")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
