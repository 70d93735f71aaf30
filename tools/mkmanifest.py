#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from registry import CHECKS
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
NA = getattr(registry, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s' % i,
                           thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
                           technique=c['technique'], level='model_checking', level_note=c['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check registered yet')))
m = dict(version=1, setup_cmd='python3 bin/selftest.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: library objects are redirected to the controlled environment with objcopy at build time.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
