#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*.py (one PROPS list per module of the code base)."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import glob
P = []
for f in sorted(glob.glob('props/[a-z]*.py')):
    P += importlib.import_module('props.' + os.path.basename(f)[:-3]).PROPS
P.sort(key=lambda p: p['id'])
assert len({p['id'] for p in P}) == len(P)
for p in P:
    assert len(p['title']) <= 80, p['id']
with open('properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['tests'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')
checks, na = [], []
for p in P:
    if 'na' in p:
        na.append({'property': p['id'], 'reason': p['na']})
    elif not os.path.exists(f'checks/{p["id"]}.py'):
        na.append({'property': p['id'], 'reason': 'planned: its static check is not built yet in this revision'})
    else:
        checks.append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]} quick', 'thorough_cmd': f'python3 check.py {p["id"]} thorough',
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: nothing of /repo is linked or run by a check. See DESIGN.md.'}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable or planned')
