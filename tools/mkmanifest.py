#!/usr/bin/env python3
"""Writes MANIFEST.json from families.PROPS and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from families import PROPS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ('TLA+ specification explored exhaustively by TLC within small bounds; its histories and seeded random programs are '
        'replayed on the real code and the recorded traces validated by TLC against the specification. '
        'Exhaustive for the specification within the bounds, sampled for the implementation.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3 harness/run_check.py %s --tier quick' % i,
                           thorough_cmd='python3 harness/run_check.py %s --tier thorough' % i,
                           technique=PROPS[i].get('technique', 'TLA+ specification checked with TLC; model histories replayed on the code and recorded traces validated against the specification'),
                           level='model_checking', level_note=PROPS[i].get('note', NOTE)))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
