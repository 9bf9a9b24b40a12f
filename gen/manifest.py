#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from gen/props.py and the checks that exist."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path.insert(0, here)
import props
NA = {}
exec(open(here + '/na.py').read())
checks = []; na = []
T = {}
exec(open(here + '/tech.py').read())
for p in props.P:
    i = p['id']
    if os.path.exists('%s/checks/c_%s.py' % (V, i.lower())) and i in T:
        t, lvl, note = T[i]
        checks.append(dict(property=i, quick_cmd='python3 checks/run.py %s quick' % i, thorough_cmd='python3 checks/run.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level=lvl, level_note=note))
    else: na.append(dict(property=i, reason=NA.get(i, 'no check has been built for it yet')))
m = dict(version=1, setup_cmd='python3 checks/setup.py', checks=checks, not_applicable=na, notes='Static analysis only: nothing in /repo is executed by a check. See DESIGN.md.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P: f.write(json.dumps(p) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
