#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from plan import PLAN, NA
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/check.py --setup', checks=[], not_applicable=[],
    notes='The checks read the type-checked program of /repo\'s working tree; no hooks and no guarded code in /repo are needed. known_findings.txt lists what is known to fail and what was repaired.')
for pr in props:
    i = pr['id']
    if i in PLAN:
        p = PLAN[i]
        m['checks'].append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} quick', thorough_cmd=f'python3 tools/check.py {i} thorough', technique=p['technique'], level=p['level'], level_note=p['level_note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'not claimed: its analysis is not finished')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
