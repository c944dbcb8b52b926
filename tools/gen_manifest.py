#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from the properties that have contracts (specs/) and notes below."""
import json
import os
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import specs                     # noqa: E402
from pyvc.api import R           # noqa: E402
specs.load()
NA = {}
NOTE = {}
exec(open(os.path.join(H, 'tools', 'manifest_notes.py')).read())
checks, na = [], []
for ln in open(os.path.join(H, 'properties.jsonl')):
    pid = json.loads(ln)['id']
    if R.props.get(pid) and pid not in NA:
        checks.append({'property': pid, 'quick_cmd': './run_check.py %s --tier quick' % pid, 'thorough_cmd': './run_check.py %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': 'contract-based deductive verification (pyvc: weakest preconditions over the Python/Cython source, discharged by z3 and cvc5)',
                       'level': 'proof', 'level_note': NOTE.get(pid, NOTE_ALL) + ' ' + ' '.join(R.notes.get(pid, []))})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'contracts for this property are not written yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the source of /repo directly and build a scratch copy of the package for the bounded cross-check.'},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
