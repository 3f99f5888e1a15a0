#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md."""
import glob, json, re
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for p in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append("| %s | %s | %s | %s |" % (p.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "\\|"), str(m["needs"]).replace("|", "\\|")))
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
d = open("/verif/DESIGN.md").read()
d = d.replace("@SEEDS@", "<!-- seeds -->\n<!-- /seeds -->")
d = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, d, flags=re.S)
open("/verif/DESIGN.md", "w").write(d)
