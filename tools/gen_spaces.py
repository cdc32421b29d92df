#!/usr/bin/env python3
"""Writes SPACES.md: every explored space with its bound, from the evidence of the last runs."""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
titles = {}
for l in open(R + "/properties.jsonl"):
    j = json.loads(l); titles[j["id"]] = j["title"]
o = ["# Explored spaces", "", "Generated by tools/gen_spaces.py from the evidence of the last quick runs. Every space is exhausted: each of its",
     "executions is one complete choice sequence of the model, encoded and executed on the real library.", ""]
for i in sorted(titles):
    p = f"{R}/evidence/{i}.json"
    if not os.path.exists(p): continue
    e = json.load(open(p)); c = e["coverage"]
    o += [f"## {i} {titles[i]}", "", f"{c['states']} distinct states, {c['transitions']} transitions, {c['traces_validated_against_impl']} executions, {e['wall_s']:.0f} s ({e['tier']})", "",
          "| space | bound | executions |", "|---|---|---|"]
    o += [f"| {s['space']} | {s['bound'].replace('|', '/')} | {s['executions']} |" for s in c["spaces"]]
    o.append("")
open(R + "/SPACES.md", "w").write("\n".join(o))
