#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md (between the two markers) from seeded/*/meta.json and caught.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
note = {}
p = V + "/seeded/CAUGHT.txt"
if os.path.exists(p):
    for l in open(p):
        if l.strip(): k, v = l.split(None, 1); note[k] = v.strip()
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = V + "/seeded/" + i + "/meta.json"
    if not os.path.exists(m): continue
    j = json.load(open(m)); c = lambda s: s.replace("|", "/")
    rows.append(f"| {i} | {j['property']} | {c(j['what_it_breaks'])} | {c(j['needs'])} | {note.get(i, 'not run yet')} |")
s = open(V + "/DESIGN.md", encoding="utf-8").read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = s.replace("@SEEDED@", t) if "@SEEDED@" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: t, s, flags=re.S)
open(V + "/DESIGN.md", "w", encoding="utf-8").write(s)
