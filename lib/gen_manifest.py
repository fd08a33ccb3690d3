#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from checks import CHECKS, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'TLA+ specification: TLC model checking + trace validation of the real code by TLC',
                       'level': 'model_checking',
                       'level_note': NOTES.get(i, '')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the check for this property is still being built')})
m = {'version': 1, 'setup_cmd': 'mkdir -p evidence .work && python3 -c "import lib.vlib"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: drivers use the public API, the library allocator hooks and link-time wrapping of system '
              'calls. "fix:" commits in /repo repair the defects listed in KNOWN_FINDINGS.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
