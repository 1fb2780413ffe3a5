#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md"""
import json, os, re
R = json.load(open("/verif/tools/seed_results.json"))
rows = ["| id | property | needs | checks |", "|---|---|---|---|"]
for s in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % s))
    rows.append("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "\\|"), ", ".join("%s %s" % x for x in sorted(R.get(s, {}).items()))))
p = "/verif/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
