#!/usr/bin/env python3
"""write MANIFEST.json from vf/props.py and properties.jsonl"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'vf'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if p is None:
        na.append({'property': i, 'reason': 'no check is registered yet'})
        continue
    checks.append({
        'property': i, 'quick_cmd': 'python3-vt check.py %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': p.get('technique', 'contract-based deductive verification of the Go code (go/ssa verification conditions, algebra kernel and z3)'),
        'level': p['level'], 'level_note': p.get('note', 'all inputs; every obligation is regenerated from /repo and discharged on every run')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: contracts live in /verif/vf/contracts.py keyed by function; the verified text is the SSA of /repo built by go/ssa on every run.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
