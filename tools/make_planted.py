#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(R, 'DESIGN.md')
s = open(p).read()
head = s.split('<!-- planted -->')[0]
rows = ['<!-- planted -->', '| id | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    f = lambda x: ' '.join(str(x).split()).replace('|', '/')
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], f(d['what_it_breaks']), f(d['needs']), d.get('caught_by', d['property'])))
open(p, 'w').write(head + '\n'.join(rows) + '\n')
