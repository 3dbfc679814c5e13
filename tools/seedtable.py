#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"]))
t = open(V + "/DESIGN.md").read()
new = "<!-- seeds -->\n| planted bug | property | needs | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("SEEDTABLE", new) if "SEEDTABLE" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: new, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
