#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} quick', 'thorough_cmd': f'python3 check.py {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': p.get('technique', 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run'),
                       'level': p['level'], 'level_note': p['note'], 'theorems': p.get('theorems', [])})
        if not checks[-1]['theorems']: del checks[-1]['theorems']
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'not built yet')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks read the compiler\'s expansion of the current source. fix: commits are listed in known_findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print([c['property'] for c in checks])
