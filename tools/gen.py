#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and props/*.json from tools/data.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from data import PROPS, NOT_APPLICABLE
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(H + '/props', exist_ok=True)
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks = []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE or not p.get('claimed', True):
        continue
    json.dump({k: p.get(k, '') for k in ('explanation', 'bounds', 'outside')} | {'assumptions': p.get('assumptions', []), 'weights': p.get('weights', {})},
              open(H + '/props/%s.json' % p['id'], 'w'), indent=1)
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': 'bounded symbolic execution of the compiled crate (LLVM IR to SMT), decided by z3/cvc5',
                   'level': 'other',
                   'level_note': 'For every value within the bounds: ' + p['bounds'] + ' Outside: ' + p['outside'] +
                                 ' Trusts rustc/LLVM lowering, the IR executor (witnesses replayed natively on every run) and the solvers.'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
     'notes': 'No hooks in /repo: the harness crate uses the public API only.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
