#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + '/seeded')):
    m = json.load(open(f'{here}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
path = here + '/DESIGN.md'
text = open(path).read()
a, b = '<!-- bugs -->\n', '<!-- end of bugs -->'
head, rest = text.split(a)
tail = rest.split(b)[1]
table = '| bug | caught by | what it needs |\n|---|---|---|\n' + '\n'.join(rows) + '\n'
open(path, 'w').write(head + a + table + b + tail)
