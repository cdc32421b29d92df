#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md."""
import json, glob, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
extra = json.load(open(R + "/tools/caught.json")) if os.path.exists(R + "/tools/caught.json") else {}
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); n = d.split("/")[-2]
    rows.append(f"| {n} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {extra.get(n, m['property'])} |")
s = open(R + "/DESIGN.md").read()
a, b = "<!-- seeded -->", "<!-- /seeded -->"
t = a + "\n" + "\n".join(rows) + "\n" + b
if a in s: s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
else: s = s.replace("SEEDED_TABLE", t)
open(R + "/DESIGN.md", "w").write(s)
