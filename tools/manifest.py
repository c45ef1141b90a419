#!/usr/bin/env python3
"""writes MANIFEST.json from the rules and the list of properties"""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from rules import RULES, NA, TECH
NOTE = ('Decides the obligations listed in the evidence for every input, on all paths of the functions concerned, from the type-checked MIR of the current source. '
        'Trusted: the models of the standard library, the contracts that stand for this crate\'s own operations (each discharged by the check of its own property), '
        'and the argument in DESIGN.md that the obligations add up to the property. Code that the analysis cannot follow is reported as UNDECIDED, never as held.')
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in RULES:
        cmd = 'python3 check.py %s' % p
        checks.append({'property': p, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': TECH.get(p, TECH['']), 'level': 'other', 'level_note': NOTE})
    else:
        na.append({'property': p, 'reason': NA[p]})
m = {'version': 1, 'setup_cmd': 'cd driver && cargo +nightly build --offline --release', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are one program, check.py; quick and thorough coincide, as the analysis is complete in about a second.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
