#!/usr/bin/env python3
"""Appends the table of planted bugs to DESIGN.md (between the markers)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for line in sorted(open(root + '/tools/caught.txt')):
    name, by = line.split()
    m = json.load(open(f'{root}/seeded/{name}/meta.json'))
    rows.append(f"| {name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {by.replace(',', ', ')} |")
s = open(root + '/DESIGN.md').read()
a, b = '<!-- planted -->', '<!-- /planted -->'
i, j = s.index(a), s.index(b)
open(root + '/DESIGN.md', 'w').write(s[:i] + a + '\n' + '\n'.join(rows) + '\n' + s[j:])
