#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from meta/props.py (one source for both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
from props import PROPS, NOTES
out, checks, na = [], [], []
for p in PROPS:
    assert len(p['title']) <= 80, p['title']
    out.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
        'anchors': {'files': p['files'], 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p.get('state', [])],
                    'mechanism': [dict(zip(('name', 'where'), s)) for s in p['mech']],
                    'observe_at': p.get('observe', []), 'hook_needed': None}}))
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': 'python3 engine/verify.py %s quick' % p['id'],
            'thorough_cmd': 'python3 engine/verify.py %s thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p.get('technique', 'contract-based deductive verification: '
            'contracts on the functions of /repo (extracted mechanically from LLVM IR each run), obligations discharged by CBMC'),
            'level': p.get('level', 'proof'), 'level_note': p['note']})
open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(out) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 engine/verify.py --setup',
     'hooks': {'guard': 'VERIF_HOOKS', 'enable': 'no hooks are needed: nothing in /repo is instrumented', 'source_commits': []},
     'checks': checks, 'not_applicable': na, 'notes': NOTES}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
