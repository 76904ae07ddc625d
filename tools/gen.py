#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from tools/props_data.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_data import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, lines, conf, na = [], [], {}, []
for p in PROPS:
    anchors = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
    if p['state']:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
    if p['observe']:
        anchors['observe_at'] = list(p['observe'])
    anchors['hook_needed'] = p['hook']
    lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                             'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': anchors}))
    assert len(p['title']) <= 80, p['title']
    if not p['programs']:
        na.append({'property': p['id'], 'reason': p['note']})
        continue
    conf[p['id']] = {'programs': p['programs'], 'rule': p['rule'], 'assumptions': p['assumptions']}
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']})
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: nondeterminism is intercepted at the Abseil/ink-stroke-modeler/libtess2 stand-ins in /verif/shim.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
json.dump(conf, open(os.path.join(V, 'checks.json'), 'w'), indent=1)
open(os.path.join(V, 'checks.json'), 'a').write('\n')
