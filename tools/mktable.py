#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs']))
p = root + '/DESIGN.md'
s = open(p).read()
head = '| bug | caught by | needs |\n|---|---|---|\n'
i = s.index(head) + len(head)
j = s.index('\n\n', i)
open(p, 'w').write(s[:i] + '\n'.join(rows) + s[j:])
