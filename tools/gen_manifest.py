#!/usr/bin/env python3
"""writes MANIFEST.json from lib/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from lib import registry
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        t, n = registry.NOTE[i]
        checks.append({'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'no check has been built for it yet'})
with open(V + '/MANIFEST.json', 'w') as o:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py',
               'checks': checks, 'not_applicable': na}, o, indent=1)
    o.write('\n')
