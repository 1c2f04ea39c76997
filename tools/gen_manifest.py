#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import checks
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
TECH = 'solver-based symbolic execution of the LLVM IR of the real code (own engine, z3 + cvc5 decide every branch and assertion); counterexamples replayed natively'
m = {'version': 1, 'setup_cmd': 'python3 /verif/check.py --setup', 'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. The engine is built from /verif/engine; every run compiles /repo afresh to LLVM IR.'}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 /verif/check.py %s quick' % i, 'thorough_cmd': 'python3 /verif/check.py %s thorough' % i, 'evidence_file': '/verif/evidence/%s.json' % i,
            'technique': c.get('technique', TECH), 'level': 'model_checking', 'level_note': 'Bounded: ' + c['bounds'] + '. Outside the bounds: ' + c['outside'] + '.'})
    else: m['not_applicable'].append({'property': i, 'reason': checks.NOT_APPLICABLE.get(i, 'no check yet')})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
