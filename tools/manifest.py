#!/usr/bin/env python3
"""Writes MANIFEST.json from contracts/index.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from contracts import index       # noqa: E402

checks, na = [], []
for pid in sorted(index.PROPS):
    p = index.PROPS[pid]
    if p.get('not_applicable'):
        na.append({'property': pid, 'reason': p['not_applicable']})
        continue
    n = len(p['contracts'])
    checks.append({
        'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid, 'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': 'contract-based deductive verification (VC generation from the Python AST, cvc5/z3)' + (
            '' if not p.get('bounded') else ', bounded run-time oracle for the rest') if n else 'bounded run-time oracle (stand-in)',
        'level': p['level'], 'level_note': (p['note'] + (' Bounded only: ' + p['bounded'] if p.get('bounded') else '')).strip()})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Contracts live in contracts/, the verification condition generator in pyvc/, the bounded oracles in oracles/; see DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
