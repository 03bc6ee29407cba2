#!/usr/bin/env python3
"""MANIFEST.json from tools/props.json"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(os.path.join(here, 'tools', 'props.json')))
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    pid = json.loads(line)['id']
    c = cfg.get(pid)
    if c is None or 'not_applicable' in c:
        na.append({'property': pid, 'reason': (c or {}).get('not_applicable', 'no check yet')})
        continue
    e = {'property': pid, 'quick_cmd': 'python3 tools/check.py %s quick' % pid,
         'thorough_cmd': 'python3 tools/check.py %s thorough' % pid,
         'technique': c.get('technique', 'contracts on the real Go code, discharged by z3/cvc5 (govc)'),
         'level': c['level'], 'level_note': c.get('level_note', ''), 'evidence_file': 'evidence/%s.json' % pid}
    if c.get('theorems'):
        e['theorems'] = c['theorems']
    checks.append(e)
m = {'version': 1, 'setup_cmd': 'sh tools/setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
