#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append((d, m["property"], m["what_it_breaks"].replace("|", "\\|")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "| planted bug | property (check that catches it) | what it breaks |\n|---|---|---|\n"
i = s.index(head) + len(head)
j = i
while s.startswith("|", j):
    j = s.index("\n", j) + 1
open(p, "w").write(s[:i] + "".join(f"| {a} | {b} | {c} |\n" for a, b, c in rows) + s[j:])
