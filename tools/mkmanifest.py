#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (claimed) and NA below (not claimed)."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import registry as REG  # noqa: E402

NA = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'na.json')))
TECH = 'contract-based deductive verification of the real code (own VC generator over clang IR of /repo sources, z3/cvc5)'
ids = list(REG.titles())
m = {
    'version': 1,
    'setup_cmd': 'python3-vt -m compileall -q kvc registry.py check.py reg',
    'checks': [{
        'property': p, 'quick_cmd': 'python3-vt check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p,
        'evidence_file': 'evidence/%s.json' % p, 'technique': TECH, 'level': REG.PROPS[p]['level'], 'level_note': REG.PROPS[p]['note'],
    } for p in ids if p in REG.PROPS],
    'not_applicable': [{'property': p, 'reason': NA.get(p, 'no contract for it yet')} for p in ids if p not in REG.PROPS],
    'notes': 'See DESIGN.md. kvc/ is the verifier, specs/ the contracts, reg/ the proof tasks, native/ the search for failing inputs (replay only).',
}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
