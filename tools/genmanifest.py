#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
exec(open(os.path.join(root, 'tools', 'claims.py')).read())
checks = []
for p in props:
    if p in CLAIMS:
        technique, note = CLAIMS[p]
        checks.append({
            'property': p,
            'quick_cmd': './run_check.sh %s' % p,
            'thorough_cmd': 'VERIF_TIER=thorough ./run_check.sh %s' % p,
            'technique': technique,
            'level': 'exploration',
            'level_note': note,
        })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'no check yet')} for p in props if p not in CLAIMS],
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(root, 'MANIFEST.json'), 'a').write('\n')
