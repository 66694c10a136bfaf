#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the property list and the contract registry."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import contracts.registry as R
R.load_all()
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
NA = json.load(open(HERE + '/tools/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in R.PROPS:
        P = R.PROPS[i]
        note = 'Every contract of the %d listed functions (and of every contracted callee they use) is verified against the current sources for all inputs; ' % len(P['functions'])
        note += 'trusted: clang AST, the verifier in dv/, the library contracts in dv/lib.py, z3/cvc5; floating-point operations uninterpreted (or real-valued where the evidence says so).'
        if P.get('note'): note += ' ' + P['note']
        checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='python3-vt check.py ' + i, evidence_file='evidence/%s.json' % i,
                           technique=P.get('technique', 'contract-based deductive verification of the C++ sources (own verifier over the clang AST, z3/cvc5); failed obligations replayed on the real code'),
                           level=P.get('level', 'proof'), level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, 'not claimed yet: contracts for the functions it depends on are not finished')))
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks: contracts live outside the sources and are attached to /repo functions by qualified name on every run. fix: commits in /repo are listed in known_findings.json.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
