#!/usr/bin/env python3
"""Fills the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | needs |', '|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d}: {m['what_it_breaks']} | {m['property']} | {m['needs']} |")
p = V + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@SEEDS@', t) if '@SEEDS@' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
