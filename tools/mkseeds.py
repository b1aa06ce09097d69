#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeds -->', '| id | needs |', '|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    with open(f) as h:
        rows.append('| %s | %s |' % (f.split(os.sep)[-2],
                                     json.load(h)['needs']))
p = os.path.join(here, 'DESIGN.md')
with open(p) as h:
    t = h.read()
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->',
           lambda m: '\n'.join(rows + ['<!-- /seeds -->']), t, flags=re.S)
with open(p, 'w') as h:
    h.write(t)
