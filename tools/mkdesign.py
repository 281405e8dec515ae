#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json and tools/caught.json ({id: sub-check}).
mkdesign.py OUT...: first takes 'CAUGHT id prop VIOLATION ... replay/CNN-sub.json' lines of these logs into caught.json."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cj = os.path.join(V, 'tools', 'caught.json')
caught = json.load(open(cj)) if os.path.exists(cj) else {}
for f in sys.argv[1:]:
    for m in re.finditer(r'^(?:CAUGHT )?\s*(\S+) .*?VIOLATION property=(C\d\d) replay=\S*/replay/C\d\d-(\w+)\.json', open(f, errors='replace').read(), re.M):
        caught[m.group(1)] = m.group(3)
ids = sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(os.path.join(V, 'seeded', '*', 'meta.json')))
json.dump({k: caught[k] for k in sorted(caught) if k in ids}, open(cj, 'w'), indent=1)
rows = ['| planted change | property | needs | caught by |', '|---|---|---|---|']
for i in ids:
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s %s |' % (i, m['property'], m['needs'].replace('|', '\\|'), m['property'], caught.get(i, '')))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
if a in s: s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
print(len(ids), [i for i in ids if i not in caught])
