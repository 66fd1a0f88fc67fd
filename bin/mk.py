#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, TECHNIQUE, NOTE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 bin/check.py %s quick' % p['id'], 'thorough_cmd': 'python3 bin/check.py %s thorough' % p['id'], 'technique': TECHNIQUE.get(p['id'], TECHNIQUE['']), 'level': 'model_checking',
                 'level_note': NOTE.get(p['id'], NOTE[''])} for p in PROPS],
     'not_applicable': []}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
