#!/usr/bin/env python3
"""DESIGN.md from tools/design.in.md and the seeded bugs"""
import json, glob, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(p)); rows.append((d["property"], os.path.basename(os.path.dirname(p)), d["what_it_breaks"].replace("\n", " "), d["needs"].replace("\n", " ")))
t = "| caught by | change | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join("| %s | %s | %s | %s |" % r for r in sorted(rows))
s = open(H + "/tools/design.in.md").read().replace("@@SEEDS@@", t)
open(H + "/DESIGN.md", "w").write(s)
