#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl, contracts/ and tools/notes.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(R, 'tools', 'notes.json')))
checks, na = [], []
for l in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(l)['id']
    n = notes.get(p, {})
    if 'na' in n or not os.path.exists(os.path.join(R, 'contracts', p.lower() + '.py')):
        na.append({'property': p, 'reason': n.get('na', 'contract not finished yet')})
        continue
    lvl = n.get('level', 'proof')
    checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': n.get('technique', 'contract-based deductive verification: contracts on the real Python functions, obligations generated from the current source on every run, discharged by z3 and a polynomial normaliser; counter-models replayed on the real code'),
                   'level': lvl, 'level_note': n['note']})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
