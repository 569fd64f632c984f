#!/usr/bin/env python3
"""MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
LEVEL = {}
checks = []; na = []
for p in props:
    i = p['id']
    f = V + '/checks/%s.py' % i.lower()
    if os.path.exists(f) and i not in NA:
        doc = ''
        for l in open(f):
            if l.startswith('# NOTE:'): doc += l[7:].strip() + ' '
        checks.append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                           evidence_file='evidence/%s.json' % i, technique='TLA+ specification checked with TLC, bound to the code by replayed and validated traces',
                           level=LEVEL.get(i, 'model_checking'),
                           level_note=doc.strip() or 'bounded state space, every edge or case replayed on the real code; see DESIGN.md'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='python3 -c "import os; os.makedirs(\'evidence\', exist_ok=True)" && java -version', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'pending')
