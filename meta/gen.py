#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta/props.py."""
import json
import os
import sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props  # noqa: E402

V = os.path.dirname(here)
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['qtext']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'],
                         'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                         'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p.get('state', [])],
                         'observe_at': p.get('observe', [])}}
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
        if 'na' in p:
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            checks.append({'property': p['id'],
                           'quick_cmd': 'python3 check.py %s' % p['id'],
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': p.get('level', 'other'),
                           'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 setup_verif.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check re-extracts the resolved program from /repo (one extraction per source state, shared through .cache).'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
