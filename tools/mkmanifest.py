#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VG = ('value-graph extraction from SSA (symbolic value numbering with loop recurrences, region-based memory, decision diagrams) '
      'and normal-form comparison with a reference definition analysed the same way; ')
CLAIMS = json.load(open(os.path.join(V, 'tools', 'claims.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    c = CLAIMS.get(i)
    if c and 'na' not in c:
        checks.append({
            'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
            'technique': c['technique'].replace('@VG', VG).strip(), 'level': 'other', 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': c['na'] if c else 'machinery not built yet'})
json.dump({'version': 1, 'setup_cmd': './run.sh -setup', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check loads /repo\'s current source (overlay package zzverif holds the reference definitions, never compiled or run), extracts value graphs and reports a site and a separating assignment. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed', len(na), 'not')
