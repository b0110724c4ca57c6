#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from vlib/catalog.py."""
import json
import os
import sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from vlib import catalog as c  # noqa: E402

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for q in c.P:
        assert len(q['title']) <= 80, q['pid']
        a = {'files': q['files'], 'mechanism': q['mech']}
        if q['observe']:
            a['observe_at'] = q['observe']
        f.write(json.dumps({'id': q['pid'], 'title': q['title'], 'statement': q['statement'],
                            'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['why'],
                            'anchors': a}) + '\n')
na = {n['property'] for n in c.NA}
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup',
     'checks': [{'property': q['pid'], 'quick_cmd': 'python3 run.py %s quick' % q['pid'],
                 'thorough_cmd': 'python3 run.py %s thorough' % q['pid'],
                 'technique': q['technique'] or c.SYMX, 'level': 'model_checking', 'level_note': q['level_note']}
                for q in c.P if q['pid'] not in na],
     'not_applicable': c.NA}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
