#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the contract files"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import contracts
fns, _ = contracts.parse()
checks = []
for l in open('properties.jsonl'):
    p = json.loads(l)['id']
    mine = {k: c for k, c in fns.items() if p in c.get('props', []) and c.get('kind') == 'fn'}
    proved = [k for k, c in mine.items() if 'trusted' not in c and 'bounded' not in c]
    if proved:
        level, tech = 'proof', 'contracts on the extracted functions, discharged by Verus; harness for counterexamples and for what is not under contract (bounded)'
        note = ('Verus proves the contracts of %d functions for all inputs: %s. ' % (len(proved), ', '.join(sorted(proved)[:14]) + (' ...' if len(proved) > 14 else '')) +
                'Assumed: contracts of std/chrono functions in verus/shim*.rs, the extractor vx, Verus and Z3. '
                'The whole property is stated as lemmas over these contracts (verus/lemma_*.rs, listed in DESIGN.md). The harness (bounded) replays and looks for failing inputs; it is not counted as proved.')
    else:
        level, tech = 'exploration', 'bounded stand-in: oracle-based exploration of the real crate (functions not yet within the verifier\'s reach)'
        note = 'Bounded: no function of this property is under a discharged contract yet; the harness samples or enumerates inputs and compares with an independent oracle.'
    checks.append({'property': p, 'quick_cmd': './check.py %s' % p, 'thorough_cmd': './check.py %s --tier thorough' % p,
                   'technique': tech, 'level': level, 'level_note': note})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the contracts are added during extraction, the harness uses the public API.'},
          open('MANIFEST.json', 'w'), indent=1)
