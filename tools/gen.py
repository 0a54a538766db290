#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        if p['id'] not in CHECKS and p['id'] not in NOT_APPLICABLE: continue
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
        assert len(p['title']) <= 80, p['id']
byid = {p['id']: p for p in PROPS}
m = {'version': 1, 'setup_cmd': 'python3 setup.py',
     'hooks': {'guard': 'NONE', 'enable': 'no hooks: the checks compile the unmodified sources of /repo with their own build files', 'source_commits': []},
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                 'technique': byid[i].get('technique', 'explicit-state model checking of the implementation: exhaustive bounded operation sequences'),
                 'level': CHECKS[i]['level'], 'level_note': byid[i]['note']} for i in CHECKS],
     'not_applicable': [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE.items()]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
