#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props_cfg import PROPS
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        s = PROPS[i]
        checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': s.get('technique', 'runtime monitor with reference model, sanitizer builds'),
            'level': s.get('level', 'exploration'), 'level_note': s['rule'] + (' Assumes: ' + ' '.join(s['assumptions']) if s.get('assumptions') else '')})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
