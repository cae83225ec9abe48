#!/usr/bin/env python3
"""Write MANIFEST.json from harness/checks.py and properties.jsonl."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
     'checks': [], 'not_applicable': [],
     'notes': 'Specification: spec/*.tla (TLA+, checked with TLC). '
              'run.py drives every check; see DESIGN.md.'}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3 run.py %s --tier quick' % i,
            'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c['technique'], 'level': c['level'],
            'level_note': c['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(
            i, 'check not built yet')})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
