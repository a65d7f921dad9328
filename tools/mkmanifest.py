#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'lib'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = getattr(checks, 'NOT_APPLICABLE', {})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        t, f, kw = checks.CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
                            'technique': kw.get('technique', checks.TECH), 'level': 'other', 'level_note': checks.NOTES.get(i, checks.NOTE)})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
