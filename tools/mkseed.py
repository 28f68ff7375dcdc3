#!/usr/bin/env python3
"""mkseed.py SPEC.py [NAME...]: builds seeded/NAME/ from the entries of
SPEC.py (seed(name, prop, file, old, new, demo, needs, breaks)), confirms each
in a scratch copy of /repo: the demo passes before and fails after the change,
the build and the stable tests pass with it; then runs the property's check
against the scratch copy (TF_REPO) and prints whether it is caught."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(name, prop, file, old, new, demo, needs, breaks):
    edits = [(file, old, new)] if isinstance(file, str) else file
    SEEDS.append(dict(name=name, prop=prop, edits=edits, demo=demo,
                      needs=needs, breaks=breaks))


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       **kw)
    return p.returncode, p.stdout.decode('utf8', 'replace')


DEMO = '''#!/bin/bash
# run with cwd = the repository
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
exec /opt/jy/bin/jython "$(dirname "$0")/demo.py" "$PWD"
'''
HEAD = '''import sys, warnings
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
'''


def one(s):
    d = os.path.join(ROOT, 'seeded', s['name'])
    scratch = tempfile.mkdtemp(prefix='seed', dir='/tmp')
    work = scratch + '/repo'
    try:
        run(['cp', '-a', '/repo', work])
        for f, old, new in s['edits']:
            p = os.path.join(work, f)
            t = open(p, newline='').read()
            if t.count(old) != 1:
                return s['name'], 'edit matches %d times in %s' % (
                    t.count(old), f)
            open(p, 'w', newline='').write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        rc, out = run(['git', '-C', work, 'diff'])
        open(d + '/patch.diff', 'w').write(out)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(HEAD + s['demo'].lstrip('\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        a, oa = run([d + '/demo.sh'], cwd='/repo')
        b, ob = run([d + '/demo.sh'], cwd=work)
        if a != 0 or b == 0:
            return s['name'], 'DEMO before=%d after=%d\n%s\n%s' % (
                a, b, oa[-1500:], ob[-1500:])
        if b > 1 or 'Error' in ob and 'Assert' not in ob:
            print(s['name'], 'demo says', ob[-600:])
        rc, out = (1, 'VIOLATION (not run)') if os.environ.get('NOCHECK') else \
            run([ROOT + '/check.py', s['prop']],
                env=dict(os.environ, TF_REPO=work,
                         VERIF_EVIDENCE=scratch + '/evidence'))
        caught = 'CAUGHT' if rc == 1 and 'VIOLATION' in out else \
            'MISSED rc=%d %s' % (rc, out[-1200:])
        if os.environ.get('NOTEST'):
            return s['name'], 'tests skipped; ' + caught
        for n in ('build', 'test'):
            t = open('/opt/vp/%s.sh' % n).read().replace('/repo', work)
            open(scratch + '/%s.sh' % n, 'w').write(t)
        rc, out = run(['bash', scratch + '/build.sh'])
        if rc:
            return s['name'], 'BUILD FAILS ' + out[-1500:]
        rc, out = run(['bash', scratch + '/test.sh', scratch + '/out.json'])
        base = json.load(open('/opt/vp/BASELINE.json'))
        res = json.load(open(scratch + '/out.json'))
        passed = set(res.get('passed', []))
        want = base.get('stable') or base.get('passed') or base.get('tests')
        lost = [t for t in want if t not in passed]
        if lost:
            return s['name'], 'TESTS FAIL %s' % lost[:5]
        return s['name'], 'ok; ' + caught
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
    todo = [s for s in SEEDS if len(sys.argv) < 3 or s['name'] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('J', 2))) as ex:
        for name, what in ex.map(one, todo):
            print('==', name, what, flush=True)
