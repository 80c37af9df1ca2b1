#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md and the planted bugs."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(here)
notes = dict(l.rstrip('\n').split('|', 1) for l in open(here + '/seednotes.txt') if '|' in l)
out = ['## 5. Planted bugs', '',
       'Each was written from the text of the property and the code, and run against',
       'the quick check of its property. "caught" without a remark: at the first run.', '',
       '| bug | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(top + '/seeded/*/meta.json')):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    n = notes.get(i, '')
    out.append('| %s | %s | %s %s |' % (i, m['needs'].replace('|', '/'), m['property'], '(' + n + ')' if n else ''))
s = open(here + '/DESIGN.in.md').read().replace('@SEEDS@', '\n' + '\n'.join(out) + '\n')
open(top + '/DESIGN.md', 'w').write(s)
