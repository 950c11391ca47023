#!/usr/bin/env python3
"""writes MANIFEST.json from registry.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from registry import REG, NA
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in REG:
        r = REG[i]; proof = r['level'] == 'proof'
        checks.append(dict(property=i, quick_cmd='python3-vt -O check.py %s quick' % i, thorough_cmd='python3-vt -O check.py %s thorough' % i,
            technique='contract-based deductive verification of the real C (LLVM IR of /repo), obligations discharged by z3; bounded replay of the contracts for failing inputs' if proof else r.get('technique', 'executable contracts of the functions run on enumerated and random inputs (bounded stand-in)'),
            level='proof' if proof else 'other', level_note=r.get('note') or ('every obligation of the contracts is discharged for all inputs; trusts the IR verifier in irv/, clang as the meaning of the source, z3, the libc contracts listed in the evidence' if proof else 'bounded: nothing is proved')))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -O -m irv.selftest', checks=checks, not_applicable=na,
    notes='properties are decided by check.py; registry.py lists the contracts (specs/) and executable contracts (native/) of each; no hooks in /repo'), open('MANIFEST.json', 'w'), indent=1)
