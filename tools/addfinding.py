#!/usr/bin/env python3
"""addfinding.py REPLAY ID-PREFIX TEXT: append the violations of a replay whose id starts with the prefix as known findings."""
import json, sys
r = json.load(open(sys.argv[1]))
with open('/verif/known_findings.txt', 'a') as f:
    for v in r['violations']:
        if str(v['id']).startswith(sys.argv[2]):
            f.write('finding: ' + json.dumps(dict(property=r['property'], match=dict(leg=v['leg'], id=v['id'], what=v['what']), text=sys.argv[3])) + '\n')
