#!/usr/bin/env python3
"""Writes section 6 of DESIGN.md (planted changes) from seeded/*/meta.json; run by hand."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    fs = sorted(set(re.findall(r'^\+\+\+ b/(\S+)', open(f'{V}/seeded/{b}/patch.diff').read(), re.M)))
    one = lambda s: ' '.join(str(s).split()).replace('|', '/')
    rows.append(f"| {b} | {', '.join(f.replace('rsm/', '') for f in fs)} | {one(m['what_it_breaks'])} | {m.get('caught_by', m['property'])} |")
t = ("## 6. Planted changes (seeded/) and the checks that catch them\n\n| id | file | breaks | caught by |\n|---|---|---|---|\n" + '\n'.join(rows) + '\n')
d = open(V + '/DESIGN.md').read()
d = re.sub(r'\n*## 6\. Planted.*?(?=\n## 7\.|\Z)', '', d, flags=re.S)
if '\n## 7.' in d:
    a, z = d.split('\n## 7.', 1); d = a.rstrip() + '\n\n\n' + t + '\n\n## 7.' + z
else: d = d.rstrip() + '\n\n\n' + t
open(V + '/DESIGN.md', 'w').write(d)
print(len(rows), 'rows')
