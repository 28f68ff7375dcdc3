#!/usr/bin/env python3
"""Writes MANIFEST.json from the harnesses present."""
import ast, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
PROPS = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
from manifest_src import NOT_APPLICABLE, NOTES, DEFAULT_NOTE
checks, na = [], []
for p in PROPS:
    pid = p['id']
    h = os.path.join(root, 'harness', pid.lower() + '.py')
    if pid in NOT_APPLICABLE or not os.path.exists(h):
        na.append({'property': pid, 'reason': NOT_APPLICABLE.get(
            pid, 'check not built yet')})
        continue
    checks.append({
        'property': pid,
        'quick_cmd': './check.py %s' % pid,
        'thorough_cmd': './check.py %s --thorough' % pid,
        'technique': 'symbolic execution of the real source with an SMT '
                     'solver (z3), counterexamples replayed under Jython',
        'level': 'model_checking',
        'level_note': NOTES.get(pid, DEFAULT_NOTE)})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': na},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
