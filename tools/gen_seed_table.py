#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(V, "tools", "missed.txt")).read().split())
rows = ["| bug | check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s%s | %s | %s | %s |" % (i, "*" if i in missed else "", m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
