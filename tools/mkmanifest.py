#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks registered in run/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'run'))
import props
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = getattr(props, 'NA', {})
checks, na = [], []
for p in P:
    i = p['id']
    if hasattr(props, i):
        checks.append(dict(property=i, quick_cmd='python3 run/check.py %s quick' % i, thorough_cmd='python3 run/check.py %s thorough' % i,
                           technique=props.TECH[i], level=props.LEVEL.get(i, 'model_checking'), level_note=props.NOTE[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'the specification for this part is not built yet')))
m = dict(version=1, setup_cmd='bash run/setup.sh', checks=checks, not_applicable=na,
         notes='One runner (run/check.py) records behaviour of the real code with the harness crates and judges it with TLC and the TLA+ modules in spec/. No hooks in /repo are needed: only public API is used.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
