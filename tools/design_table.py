#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/')):
    m = json.load(open(d + 'meta.json'))
    rows.append(f'| {os.path.basename(d[:-1])} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} |')
p = V + '/DESIGN.md'
s = open(p, encoding='utf-8').read()
s = re.sub(r'<!-- bugs -->.*<!-- /bugs -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- /bugs -->', s, flags=re.S)
open(p, 'w', encoding='utf-8').write(s)
