#!/usr/bin/env python3
"""Lists functions of /repo (tests and examples aside) that no check's last
evidence file names as encoded."""
import glob, json, os, re
R = '/repo'
seen = set()
for f in glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'evidence', '*.json')):
    seen.update(json.load(open(f))['coverage'].get('functions_encoded', []))
total = miss = 0
for d, ds, fs in os.walk(R):
    ds[:] = [x for x in ds if x not in ('tests', 'examples', '.git', 'build',
                                        'test', 'misc')]
    for f in sorted(fs):
        if not f.endswith('.py') or f == 'setup.py':
            continue
        rel = os.path.relpath(os.path.join(d, f), R)
        stack = []
        out = []
        for ln in open(os.path.join(d, f), errors='replace'):
            m = re.match(r'(\s*)(class|def)\s+(\w+)', ln)
            if not m:
                continue
            ind = len(m.group(1))
            while stack and stack[-1][0] >= ind:
                stack.pop()
            stack.append((ind, m.group(3), m.group(2)))
            if m.group(2) == 'def':
                total += 1
                names = {rel + ':' + '.'.join(s[1] for s in stack),
                         rel + ':' + stack[-1][1]}
                if not names & seen:
                    miss += 1
                    out.append('.'.join(s[1] for s in stack))
        if out:
            print(rel, '\n    ', '\n     '.join(out))
print(total, 'functions,', miss, 'uncovered')
