#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (root, i)))
    rows.append('| %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(\| seed \| property \| needs \|\n\|---\|---\|---\|\n)(?:@@TABLE@@|(?:\| S.*\n)*\| S.*)',
           lambda m: m.group(1) + '\n'.join(rows), s)
open(p, 'w').write(s)
