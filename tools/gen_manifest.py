#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.registry import CHECKS, NOT_YET
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --quick' % i, thorough_cmd='python3 run.py %s --thorough' % i,
                           technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NOT_YET.get(i, 'not built yet: its headers include mockturtle, phmap or kitty, which are not installed here, and the stand-in for them does not cover it')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check rebuilds its harnesses from the working tree of /repo into a scratch directory under /var/tmp and removes it.')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
