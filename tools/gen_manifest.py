#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plan."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from plan import PLAN
P = [json.loads(l)['id'] for l in open(os.path.join(D, '..', 'properties.jsonl'))]
NA = {}
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py setup',
    'checks': [],
    'not_applicable': [],
}
for p in P:
    if p in PLAN:
        m['checks'].append({
            'property': p,
            'quick_cmd': 'python3 check.py %s quick' % p,
            'thorough_cmd': 'python3 check.py %s thorough' % p,
            'technique': 'symbolic execution of the compiled crate (LLVM IR from rustc) with Z3, counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'bounded: ' + PLAN[p]['bounds'],
        })
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'check not finished yet; nothing is claimed')})
json.dump(m, open(os.path.join(D, '..', 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in m['checks']])
