#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/properties.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from spec.properties import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['observe'], hook_needed=None))) + '\n')
checks, na = [], []
for p in PROPS:
    if p['claim'] and os.path.exists('%s/props/%s.py' % (V, p['id'])):
        checks.append(dict(property=p['id'], quick_cmd='bin/check ' + p['id'],
            thorough_cmd='VERIF_TIER=thorough bin/check ' + p['id'],
            technique=p['technique'], level=p['level'], level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'no check has been built for it yet'))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='bin/check <id> decides one property from /repo\'s current tree; see DESIGN.md')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
