#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS:
        assert i in NOT_APPLICABLE, i
        continue
    P = PROPS[i]
    checks.append(dict(
        property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough', evidence_file=f'evidence/{i}.json',
        technique=P.get('technique', 'contracts on the real functions, extracted on every run and discharged by Verus; concrete harness replays failures'),
        level=P['level'],
        level_note=P['claim'] + ' Assumes: ' + '; '.join(P['assumptions']) + '. Trusts Verus/Z3 and the extraction described in DESIGN.md.'
        + (' Bounded, not proved: ' + '; '.join(P['bounded_parts']) + '.' if P.get('bounded_parts') else '')))
    if P.get('theorems'):
        checks[-1]['theorems'] = P['theorems']
M = dict(version=1, setup_cmd='bash setup.sh', checks=checks,
         not_applicable=[dict(property=i, reason=NOT_APPLICABLE[i]) for i in ids if i not in PROPS],
         notes='The checks use no hooks in /repo. Both commits in /repo are fixes (known-findings.txt).')
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1)
