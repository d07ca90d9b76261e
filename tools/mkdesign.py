#!/usr/bin/env python3
"""Fills the table of planted changes in DESIGN.md (between the markers) from seeded/*/meta.json and tools/caught.json."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
rows = ['| planted change | breaks | caught by | missed first | needs |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    sid = f.split('/')[-2]
    m = json.load(open(f))
    c = caught.get(sid, {})
    rows.append('| %s | %s | %s | %s | %s |' % (sid, m['property'], ' '.join(c.get('by', [])) or '-', c.get('missed', ''), m['needs']))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- end planted -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
