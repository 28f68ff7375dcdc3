#!/usr/bin/env python3
"""record_fix.py PID 'subject' 'what failed': commits /repo's change as a
fix and lists it in known_findings.json."""
import json, os, subprocess, sys
pid, subject, what = sys.argv[1:4]
fn = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
subprocess.check_call(['git', '-C', '/repo', 'commit', '-qam', 'fix: ' + subject])
h = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', '--short', 'HEAD']).decode().strip()
L = json.load(open(fn)) if os.path.exists(fn) else []
L.append({'property': pid, 'status': 'fixed', 'commit': h,
          'line': 'fixed: property=%s %s %s' % (pid, h, what)})
json.dump(L, open(fn, 'w'), indent=1)
print(L[-1]['line'])
