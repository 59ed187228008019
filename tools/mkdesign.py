#!/usr/bin/env python3
"""Regenerates the planted-bug table of DESIGN.md (between the two markers) from
seeded/*/meta.json and tools/caught.txt (id, check, result, note)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(os.path.join(root, 'tools/caught.txt')):
    l = l.rstrip('\n')
    if l and not l.startswith('#'):
        i, note = (l.split(' ', 1) + [''])[:2]
        res[i] = note
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    needs = ' '.join(m['needs'].split()).replace('|', '\\|')
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], needs, res.get(d, 'not run yet')))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
