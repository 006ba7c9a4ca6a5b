#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from registry.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(ROOT, "engine"), ROOT]
from registry import R
from props import PROPS
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for r in R:
        assert len(r['title']) <= 80, r['title']
        f.write(json.dumps({'id': r['id'], 'title': r['title'], 'statement': r['statement'],
                            'quantifier': {'over': r['over'], 'text': r['qtext']}, 'why_tests_cant': r['why'],
                            'anchors': {'files': r['files'], 'mechanism': [{'name': a, 'where': b} for a, b in r['mech']], 'hook_needed': None}}) + '\n')
checks, na = [], []
for r in R:
    if r['na']:
        na.append({'property': r['id'], 'reason': r['na']})
        continue
    assert r['id'] in PROPS, r['id']
    c = 'python3-vt check.py %s --tier ' % r['id']
    checks.append({'property': r['id'], 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough', 'technique': r['technique'],
                   'level': PROPS[r['id']]['level'], 'level_note': r['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: /repo carries only fix: commits. Generated by tool/gen.py from tool/registry.py.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
