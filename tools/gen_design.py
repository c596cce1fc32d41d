#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/DESIGN.md").read().split("<!-- seeds -->")[0] + "<!-- seeds -->\n| id | caught by | what it breaks | needs |\n|----|----|----|----|\n"
missed = {l.split()[0]: l.split(None, 1)[1].strip() for l in open(V + "/tools/missed.txt") if l.strip()} if os.path.exists(V + "/tools/missed.txt") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m)); t += f"| {i} | {missed.get(i, d['property'])} | {d['what_it_breaks'].replace('|', '/')} | {d['needs'].replace('|', '/')} |\n"
open(V + "/DESIGN.md", "w").write(t)
