#!/usr/bin/env python3
"""Rewrites the table of planted bugs in /verif/DESIGN.md from the meta.json files (run by hand)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check that catches it | needs |", "|---|---|---|"]
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|', '¦')} |")
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- planted bugs -->\n', '<!-- end -->\n'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
