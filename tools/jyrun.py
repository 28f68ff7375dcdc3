#!/usr/bin/env python3
"""jyrun.py [REPLAY.json]: replays a saved counterexample under Jython."""
import json, subprocess, sys, tempfile, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(sys.argv[1]))
d = tempfile.mkdtemp()
json.dump({'repo': os.environ.get('TF_REPO', '/repo'), 'harness_dir': here + '/harness', 'module': c['module'],
  'bounds': c['bounds'], 'tier': c['tier'], 'known': c['known'], 'cases': [{'fn': c['fn'], 'inputs': c['inputs']}]}, open(d + '/j', 'w'))
subprocess.call(['/opt/jy/bin/jython', here + '/jy/replay.py', d + '/j', d + '/o'], env=dict(PATH=os.environ['PATH'], TZ='UTC', HOME=d))
o = json.load(open(d + '/o'))[0]
tr = o.pop('trace', '')
print(json.dumps(o, indent=1)); print(tr)
