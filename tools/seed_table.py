#!/usr/bin/env python3
'''Rewrites the table of planted bugs in DESIGN.md (between the two markers) from seeded/*/meta.json.'''
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(V + '/tools/seed_notes.json'))
rows = ['| planted bug | what it needs | caught by | first |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    n = notes.get(d, ['caught', 'caught'])
    rows.append('| %s | %s | %s | %s |' % (d, m['needs'].replace('|', '/'), m['property'] if n[0] == 'caught' else n[0], n[1]))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->\n'
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
