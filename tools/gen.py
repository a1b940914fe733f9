#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        n = [x for x in p['statement'].split('. ') if x.strip()]
        assert len(n) <= 3, (p['id'], len(n))
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in PROPS:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'bash check.sh %s quick' % p['id'],
                       'thorough_cmd': 'bash check.sh %s thorough' % p['id'],
                       'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static analyses of the sources of /repo as they are at the time of the run; nothing of /repo is executed. No hooks are needed in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
