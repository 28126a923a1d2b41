#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
na = []
for p in props:
    c = CHECKS.get(p['id'])
    if not c:
        na.append(dict(property=p['id'], reason='No check has been built for this property yet; it is within reach of the same bounded exhaustive exploration.'))
        continue
    checks.append(dict(property=p['id'],
        quick_cmd='python3 run.py %s --tier quick' % p['id'],
        thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
        technique=c.get('technique', 'bounded exhaustive model checking of the real code against a reference model'),
        level=c.get('level', 'model_checking'),
        level_note=c['note'] if 'note' in c else c['coverage'] + ' Exhaustive within the stated bounds only; compiled with gcc 13 and the address and undefined-behaviour sanitizers.'))
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: every check compiles the unmodified headers and sources. run.py builds and runs one check; lib/vk.hpp is the explorer, harness/ holds the drivers and reference models.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
