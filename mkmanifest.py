#!/usr/bin/env python3
"""regenerates MANIFEST.json from the lists below (claims and reasons)"""
import json
import sys; sys.path.insert(0, 'fvc')
import groups
PROOF = 'contract-based deductive verification of the real C++ (fvc: AST extracted by clang, obligations discharged by z3/cvc5)'
NOTES = groups.NOTES
L = [json.loads(l) for l in open('properties.jsonl')]
checks = []; na = []
for p in L:
    i = p['id']
    try: g = groups.of(i)
    except SystemExit: g = None
    if g is None: na.append(dict(property=i, reason=groups.NA.get(i, 'no check yet'))); continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='python3-vt check.py ' + i, evidence_file='evidence/%s.json' % i,
                       technique=g.get('technique', {}).get(i, PROOF), level=g['level'](i), level_note=NOTES.get(i) or g.get('note', {}).get(i) or g['gnote']))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes='see DESIGN.md'), open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
