#!/usr/bin/env python3
"""check.py ID [--thorough] [--only FN] [--seconds N]

Decides one property: explores the harness of the property symbolically over
/repo's current source, replays counterexamples and witnesses under Jython,
writes evidence/ID.json.  Exit 0: held on everything explored; 1: VIOLATION.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
if os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONWARNINGS='ignore')
    os.execve(PY, [PY] + sys.argv, env)
if os.environ.get('PYTHONHASHSEED') != '0':
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               PYTHONWARNINGS='ignore')
    os.execve(PY, [PY] + sys.argv, env)
sys.path.insert(0, HERE)
from engine import explore, importer

EVDIR = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
REPLAY_DIR = os.path.join(EVDIR, 'replay')


def jython(module, cases, bounds, tier, known, timeout=600):
    """Outcome of each concrete case under Jython on the real code."""
    if not cases:
        return []
    nproc = 1 if len(cases) < 60 else min(4, (len(cases) + 59) // 60)
    tmp = tempfile.mkdtemp(prefix='verifjy')
    procs, outs = [], []
    try:
        for i in range(nproc):
            part = cases[i::nproc]
            job = {'repo': importer.REPO, 'harness_dir': importer.HARNESS,
                   'module': module, 'bounds': bounds, 'tier': tier,
                   'known': list(known), 'cases': part,
                   'preload': importer.preload_names(open(os.path.join(
                       importer.HARNESS, module + '.py')).read())}
            jf = os.path.join(tmp, 'job%d.json' % i)
            of = os.path.join(tmp, 'out%d.json' % i)
            with open(jf, 'w') as f:
                json.dump(job, f)
            env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:'
                           '/usr/bin:/sbin:/bin', 'HOME': tmp,
                   'LANG': 'C.UTF-8', 'TZ': 'UTC', 'TMPDIR': tmp}
            p = subprocess.Popen(
                ['/opt/jy/bin/jython', os.path.join(HERE, 'jy', 'replay.py'),
                 jf, of], env=env, cwd=tmp, stdin=subprocess.DEVNULL,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            procs.append((p, of, len(part)))
        res = [None] * len(cases)
        for i, (p, of, k) in enumerate(procs):
            try:
                out = p.communicate(timeout=timeout)[0]
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                out = b'timeout'
            if os.path.exists(of):
                got = json.load(open(of))
                for j, r in enumerate(got):
                    res[i + j * nproc] = r
            else:
                sys.stderr.write('jython replay failed:\n%s\n' %
                                 out.decode('utf8', 'replace')[-3000:])
        return res
    finally:
        for p, _, _ in procs:
            if p.poll() is None:
                p.kill()
        for n in os.listdir(tmp):
            q = os.path.join(tmp, n)
            if os.path.isfile(q):
                os.unlink(q)
        try:
            os.rmdir(tmp)
        except OSError:
            pass


def same(a, b):
    """Logged value of the engine (a) against Jython's (b)."""
    a, b = num(a), num(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a == b
    return a == b


def num(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, dict):
        if 'q' in v:
            return v['q'][0] / v['q'][1]
        if 'f' in v:
            return v['f']
    return v


def load_known(pid):
    """(active finding ids, entries) from known_findings.txt."""
    active = []
    fn = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(fn):
        for e in json.load(open(fn)):
            if e.get('property') == pid and e.get('status') == 'known':
                active.append(e)
    return active


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = 'thorough' if '--thorough' in args else 'quick'
    verbose = '-v' in args
    only = args[args.index('--only') + 1] if '--only' in args else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    module = pid.lower()
    if not os.path.isfile(os.path.join(importer.HARNESS, module + '.py')):
        sys.stderr.write('no harness for %s\n' % pid)
        return 2
    import ast
    src = open(os.path.join(importer.HARNESS, module + '.py')).read()
    tree = ast.parse(src)
    consts = {}
    for st in tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            try:
                consts[st.targets[0].id] = ast.literal_eval(st.value)
            except ValueError:
                pass
    fnames = [st.name for st in tree.body if isinstance(st, ast.FunctionDef)
              and st.name.startswith('h_')]
    if only:
        fnames = [f for f in fnames if f == only or f == 'h_' + only]
    bounds = dict(consts['BOUNDS']['quick'])
    if tier == 'thorough':
        bounds.update(consts['BOUNDS'].get('thorough', {}))
    budget = {'quick': 240, 'thorough': 3000}[tier]
    budget = consts.get('SECONDS', {}).get(tier, budget)
    if '--seconds' in args:
        budget = float(args[args.index('--seconds') + 1])
    entries = load_known(pid)
    known = tuple(e['id'] for e in entries)
    max_wit = {'quick': 240, 'thorough': 1500}[tier]
    r = explore.explore(module, fnames, bounds, tier, seed, t0 + budget,
                        known, max_witness=max_wit, verbose=verbose)
    problems = []          # reasons for an error exit
    soft = []              # parts left undecided (errors when strict)
    strict = bool(os.environ.get('VERIF_STRICT'))
    for e in r['errors']:
        problems.append('engine error:\n' + e)
    # ---- replay on the real code
    fails = pick(r['failures'], 8)
    incon = [x for x in r['inconclusive'] if x[2] is not None][:60]
    cases = [{'fn': f, 'inputs': i} for f, l, i, tb in fails]
    cases += [{'fn': f, 'inputs': i} for f, w, i, tb in incon]
    cases += [{'fn': f, 'inputs': i} for f, i, lg in r['witnesses']]
    outs = jython(module, cases, bounds, tier, known)
    nf, ni, nw = len(fails), len(incon), len(r['witnesses'])
    violation = None
    for (f, l, i, tb), o in zip(fails, outs[:nf]):
        if o and o['status'] in ('fail', 'exception'):
            violation = violation or (f, i, o)
        else:
            soft.append('counterexample of %s (%s) does not reproduce: '
                        '%s\n%s\n%s' % (f, l, json.dumps(i), o, tb))
    for (f, w, i, tb), o in zip(incon, outs[nf:nf + ni]):
        if o and o['status'] in ('fail', 'exception'):
            violation = violation or (f, i, o)
    validated, mismatches = 0, []
    for (f, i, lg), o in zip(r['witnesses'], outs[nf + ni:nf + ni + nw]):
        if o is None:
            soft.append('no replay result for %s %s' % (f, json.dumps(i)))
        elif o['status'] in ('fail', 'exception'):
            violation = violation or (f, i, o)
        elif o['status'] == 'assume':
            mismatches.append((f, i, 'assumption fails under Jython'))
        else:
            a = [[x, y] for x, y in lg]
            b = [list(x) for x in o['logs']]
            if len(a) == len(b) and all(
                    x[0] == y[0] and same(x[1], y[1]) for x, y in zip(a, b)):
                validated += 1
            else:
                d = [(x, y) for x, y in zip(a, b)
                     if x[0] != y[0] or not same(x[1], y[1])]
                mismatches.append((f, i, 'engine/Jython logs differ: %s' %
                                   (d[:2] or (a, b),)))
    finding_lines = []
    for e in entries:
        finding_lines.append('KNOWN-FINDING: property=%s %s' % (
            pid, e['what']))
    for m in mismatches[:5]:
        soft.append('mismatch in %s on %s: %s' % (
            m[0], json.dumps(m[1]), m[2]))
    # ---- vacuity
    want = set()
    for f, labels in consts.get('COVERS', {}).items():
        for l in labels:
            want.add((f, l))
    if only:
        want = set(x for x in want if x[0] in fnames)
    missing = want - r['covers']
    if r['status']['ok'] == 0 and not r['failures']:
        problems.append('no path completed: %s' % (r['status'],))
    if missing and r['complete'] and not r['failures'] and not violation:
        soft.append('never reached: %s' % sorted(missing))
    elif missing and not r['failures'] and not violation and \
            not r['complete']:
        sys.stderr.write('not reached in the time given: %s\n' %
                         sorted(missing))
    wall = time.time() - t0
    whys = {}
    for f, w, i, tb in r['inconclusive']:
        k = '%s: %s' % (f, w)
        whys[k] = whys.get(k, 0) + 1
    samples = [{'harness': f, 'inputs': i, 'observed': lg}
               for f, i, lg in r['witnesses'][:4]]
    cov = {
        'states': r['paths'], 'transitions': r['events'],
        'traces_validated_against_impl': validated,
        'samples': samples or [{'inputs': i, 'label': l}
                               for f, l, i, tb in fails[:3]],
        'technique': 'symbolic execution of the real source (rewritten on '
                     'this run) with z3; every feasible path within the '
                     'bounds, assertions decided by the solver',
        'harness_functions': dict(r['per_fn']),
        'functions_encoded': sorted('%s:%s' % x for x in r['funcs']),
        'bounds': bounds,
        'paths': dict(r['status']),
        'assertions_evaluated': r['checks'],
        'queries': r['queries'],
        'solver_s': round(r['solver_s'], 2),
        'solver_unknown': r['unknowns'],
        'exhaustive': bool(r['complete'] and not r['inconclusive'] and
                           not r['failures'] and not soft),
        'unexplored_prefixes': r['left'],
        'inconclusive_paths': whys,
        'inconclusive_replayed_concretely': len(incon),
        'covers_reached': sorted('%s:%s' % x for x in r['covers']),
        'engine_mismatches': len(mismatches),
        'undecided': [x[:400] for x in soft[:10]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': consts.get('ASSUMPTIONS', []) + COMMON,
          'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    os.makedirs(EVDIR, exist_ok=True)
    if not only:
        with open(os.path.join(EVDIR, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if verbose or True:
        sys.stderr.write('%s %s: paths %s, queries %d, solver %.1fs, '
                         'explore %.1fs, wall %.1fs, validated %d/%d, '
                         'complete=%s, inconclusive=%d\n' % (
                             pid, tier, dict(r['status']), r['queries'],
                             r['solver_s'], r['explore_s'], wall, validated,
                             nw, r['complete'], len(r['inconclusive'])))
        for k, n in sorted(whys.items())[:10]:
            sys.stderr.write('  inconclusive %dx %s\n' % (n, k))
        if verbose and r['inconclusive']:
            sys.stderr.write(r['inconclusive'][0][3] + '\n')
    for l in finding_lines:
        print(l)
    if violation:
        f, i, o = violation
        os.makedirs(REPLAY_DIR, exist_ok=True)
        path = os.path.join(REPLAY_DIR, '%s.json' % pid)
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'module': module, 'fn': f,
                       'inputs': i, 'bounds': bounds, 'tier': tier,
                       'known': list(known), 'outcome': o}, fh, indent=1)
        sys.stderr.write('violated: %s %s\ninputs: %s\n%s\n' % (
            f, o.get('labels') or o.get('label'), json.dumps(i),
            o.get('trace', '')))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for p in soft[:8 if verbose else 3]:
        sys.stderr.write('UNDECIDED: %s\n' % p)
    if strict:
        problems += soft
    if problems:
        for p in problems[:8 if verbose else 2]:
            sys.stderr.write('ERROR: %s\n' % p)
        return 2
    return 0


def pick(failures, n):
    """A few failures, one per (function, label) first."""
    seen, first, rest = set(), [], []
    for x in failures:
        k = x[:2]
        (rest if k in seen else first).append(x)
        seen.add(k)
    return (first + rest)[:n]


COMMON = [
    'the code runs under CPython 3 after a source rewriting that gives its '
    'operators and built-ins Python 2 meaning; sampled paths are replayed '
    'under Jython on the unmodified source and compared',
    'the standard library modules the code uses (re, csv, datetime, time, '
    'sqlite, zipfile, codecs ...) are replaced by symbolic stand-ins',
    'floating point numbers are exact rationals',
    'text is 7-bit characters of the alphabet stated in the harness',
    'nothing is claimed outside the stated bounds',
]

if __name__ == '__main__':
    sys.exit(main())
