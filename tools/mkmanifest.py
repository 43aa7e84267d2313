"""Writes MANIFEST.json from properties.jsonl and the contracts that exist."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTES:
        checks.append({
            'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i, 'thorough_cmd': 'python3-vt check.py %s thorough' % i,
            'technique': NOTES[i].get('technique', 'contract-based deductive verification: symbolic execution of the functions in /repo under contracts, obligations discharged by z3/cvc5'),
            'level': NOTES[i].get('level', 'proof'), 'level_note': NOTES[i]['note']})
    else:
        na.append({'property': i, 'reason': 'no contract written yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
