#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    cell = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append((m['property'], d, cell(m['needs']), cell(m['what_it_breaks'])))
rows.sort()
out = '| caught by | planted bug | needs | effect |\n|---|---|---|---|\n' + ''.join(f'| {p} | {d} | {n} | {w} |\n' for p, d, n, w in rows)
p = root + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + out + s[j:])
