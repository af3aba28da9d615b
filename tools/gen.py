#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + '/harness/checks.json'))
with open(V + '/properties.jsonl', 'w') as o:
    for p in PROPS:
        a = {'files': p['files'], 'mechanism': p['mech'], 'hook_needed': None}
        if p['state']:
            a['state'] = list(p['state'])
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        assert len(p['title']) <= 80, p['id']
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        o.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 run.py --selfcheck', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks: every harness drives the public interface of the unmodified sources.'}
for p in PROPS:
    if p['id'] in checks:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                            'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                            'technique': checks[p['id']].get('technique', 'stateless model checking of the real code: exhaustive bounded enumeration of operation histories/inputs against a reference model'),
                            'level': 'model_checking',
                            'level_note': checks[p['id']].get('level_note', 'Every choice sequence within the stated bounds is executed on the real code; nothing is sampled. Beyond the bounds nothing is claimed.')})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
