#!/usr/bin/env python3
"""Writes MANIFEST.json from the implemented properties."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo/src')
from sim import seams, simfs, core, adapter
seams.install()
simfs.install()
adapter.bind()
from sim import props

NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
table = props.table()
checks = []
na = []
for i in ids:
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if i not in table:
        na.append({'property': i, 'reason': 'Its check is not written yet.'})
        continue
    p = table[i]
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': p.technique, 'level': p.level, 'level_note': p.note})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
     'hooks': {'guard': 'PYAVB_SIM', 'enable': 'No hooks are needed: nothing in /repo is guarded and the checks run the '
               'sources as they are. The simulator replaces open/os/io/tempfile/shutil, the clock and the entropy source '
               'of its own process before it imports the code.', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'One driver (check.py) runs every check: seeded simulation, 8 worker processes, no network, no writes '
              'outside a temporary directory, evidence/ and replays/. --replay FILE repeats a reported violation.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
