#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (between the two markers) from /verif/seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].strip().replace("|", "/"), m["what_it_breaks"].strip().replace("|", "/")))
t = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
t = t[:t.index(a) + len(a)] + "\n| planted bug | caught by the check of | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + t[t.index(b):]
open(V + "/DESIGN.md", "w").write(t)
