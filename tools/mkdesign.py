#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read()
head = t.split("\nBUGS\n")[0].split("\n| bug |")[0].rstrip()
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
open(V + "/DESIGN.md", "w").write(head + "\n\n" + "\n".join(rows) + "\n")
