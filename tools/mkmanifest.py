#!/usr/bin/env python3-vt
"""Writes MANIFEST.json from the contract registry and properties.jsonl."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from dv import load                                           # noqa: E402
from dv import harness                                        # noqa: E402
load.load_symbolic()
from dv.concrete import load_contracts                        # noqa: E402
load_contracts()

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    cs = [c for c in harness.REGISTRY.values() if c.prop == p['id']]
    if not cs:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no contract written yet')})
        continue
    unb = [c.name for c in cs if not c.bound]
    bnd = [c for c in cs if c.bound]
    if not bnd:
        level = 'proof'
        note = ('%d contracts on the real code, every obligation discharged for all inputs (no bound); '
                'floats as reals, see trusted_base in the evidence' % len(unb))
    else:
        level = 'other'
        note = ('%d contracts proved for all inputs (%s); %d bounded stand-ins, contents symbolic, sizes '
                'enumerated: %s' % (len(unb), ', '.join(unb) or 'none', len(bnd),
                                    '; '.join('%s (%s)' % (c.name, c.bound) for c in bnd)))
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3-vt check.py %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
        'technique': 'contract-based deductive verification: verification conditions generated by symbolic '
                     'execution of the real code against its contracts, discharged by z3/cvc5',
        'level': level,
        'level_note': note[:1800],
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', [n['property'] for n in na])
