#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
from specs import SPECS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in SPECS:
        s = SPECS[p]
        checks.append(dict(property=p, quick_cmd='python3 tools/check.py %s quick' % p, thorough_cmd='python3 tools/check.py %s thorough' % p,
            technique='symbolic execution of the compiled sources (LLVM IR) with Z3 deciding every branch and assertion; counterexamples replayed natively',
            level='model_checking', level_note='Bounded: ' + s['bounds'] + '. Outside: ' + s.get('outside', '') + '. Trusts: ' + '; '.join(s['assumptions']) + '.'))
    else: na.append(dict(property=p, reason=NOT_APPLICABLE.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='make -C engine', checks=checks, not_applicable=na, notes='Engine in engine/, harnesses in harness/, one spec per property in tools/specs.py, known findings in known_findings.jsonl.'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
