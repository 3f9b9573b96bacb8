#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (claimed checks) and NA (the rest)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
TECH = 'symbolic execution of the compiled LLVM IR of the library, assertions and branches decided by z3; counterexamples replayed natively'
checks = []
for i in ids:
    if i not in props.P: continue
    p = props.P[i]
    b = p['bounds']('quick') if callable(p['bounds']) else p['bounds']
    checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i, technique=TECH, level='model_checking',
        level_note='Holds for every value within the bounds: %s. Trusts rustc, the LLVM IR interpreter in symex/ and z3; see the assumptions in the evidence file.' % b))
na = [dict(property=i, reason=props.NA[i]) for i in ids if i not in props.P]
json.dump(dict(version=1, setup_cmd='python3 tools/check.py setup', hooks=dict(guard='none', enable='no hooks: the harness uses the public API only', source_commits=[]), checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
