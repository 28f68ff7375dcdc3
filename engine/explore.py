"""Explores the harness functions of one property with worker processes."""
import collections
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
import z3
from . import core, api, importer, symtypes
from .stubs import dt


class Worker(object):
    def __init__(self, module, bounds, tier, seed, timeout_ms, known):
        sys.setrecursionlimit(20000)
        self.ctx = core.Ctx(timeout_ms=timeout_ms)
        core.set_ctx(self.ctx)
        self.ctx.start([])
        self.imp = importer.Importer()
        self.bounds, self.tier, self.known = bounds, tier, known
        self.mod = self.imp.load(module)
        with open(self.mod.__file__) as f:
            names = importer.preload_names(f.read())
        for n in names:
            if self.imp._find(n):
                self.imp.load(n)
        self.imp.freeze()
        self.rng = random.Random(seed)
        self.funcs = set()
        self._monitor()
        self.cur = None

    def _monitor(self):
        mon = sys.monitoring
        tid = mon.PROFILER_ID
        mon.use_tool_id(tid, 'verif')
        root = importer.REPO + '/'

        def start(code, off):
            fn = code.co_filename
            if fn.startswith(root) and not code.co_name.startswith('<'):
                self.funcs.add((fn[len(root):], code.co_qualname))
            return mon.DISABLE
        mon.register_callback(tid, mon.events.PY_START, start)
        mon.set_events(tid, mon.events.PY_START)

    def run_path(self, fname, prefix, res, keep):
        ctx = self.ctx
        ctx.start(prefix)
        dt.CLOCK['today'] = None
        self.imp.snap.restore()
        a = api.Api(ctx, self.bounds, self.tier, self.imp)
        a.known_active = self.known
        status = 'ok'
        try:
            getattr(self.mod, fname)(a)
        except core.Infeasible:
            status = 'infeasible'
        except core.CheckFailed:
            status = 'failed'
        except core.Cut as e:
            status = 'cut'
            self._incon(a, res, fname, 'cut: %s' % e)
        except core.Unsupported as e:
            status = 'unsupported'
            self._incon(a, res, fname, 'unsupported: %s' % e,
                        traceback.format_exc())
        except (z3.Z3Exception, RecursionError, MemoryError) as e:
            status = 'unsupported'
            self._incon(a, res, fname, '%s: %s' % (type(e).__name__, e),
                        traceback.format_exc())
        except core.Steer:
            raise
        except (Exception, SystemExit, KeyboardInterrupt) as e:
            status = 'exception'
            try:
                m = ctx.get_model()
                res['failures'].append(
                    (fname, 'exception %s' % type(e).__name__,
                     a.concretize(m), traceback.format_exc()[-3000:]))
            except core.Infeasible:
                status = 'infeasible'
            except core.Unsupported:
                self._incon(a, res, fname, 'exception with unknown path')
        for label, inputs in a.failures:
            res['failures'].append((fname, label, inputs, ''))
        for l in a.inconclusive:
            res['inconclusive'].append((fname, 'unknown: ' + l, None, ''))
        res['checks'] += a.nchecks
        res['status'][status] += 1
        if status == 'ok' or status == 'failed':
            res['covers'].update((fname, c) for c in a.covered)
        if status == 'ok' and keep:
            try:
                m = ctx.get_model()
                logs = [(l, api.model_value(m, v)) for l, v in a.logs]
                res['witnesses'].append((fname, a.concretize(m), logs))
            except core.Infeasible:
                res['status']['ok'] -= 1
                res['status']['infeasible'] += 1
            except core.Unsupported as e:
                res['inconclusive'].append((fname, str(e), None, ''))
        res['events'] += len(ctx.trail)
        return ctx.trail

    def _incon(self, a, res, fname, why, tb=''):
        inputs = None
        try:
            inputs = a.concretize(self.ctx.get_model())
        except core.Infeasible:
            return
        except core.Steer:
            pass
        res['inconclusive'].append((fname, why, inputs, tb[-2500:]))

    def slice(self, fname, prefixes, seconds, keep_prob):
        if self.cur != fname:
            self.ctx.reset_stack()
            self.cur = fname
        q0, s0, u0 = self.ctx.queries, self.ctx.solver_s, self.ctx.unknowns
        res = {'failures': [], 'inconclusive': [], 'witnesses': [],
               'status': collections.Counter(), 'covers': set(),
               'checks': 0, 'events': 0, 'paths': 0}
        end = time.time() + seconds
        stack = list(reversed(prefixes))
        while stack:
            prefix = stack.pop()
            trail = self.run_path(fname, prefix, res,
                                  self.rng.random() < keep_prob)
            res['paths'] += 1
            if trail[:len(prefix)] and len(trail) < len(prefix) and \
                    res['status']['infeasible'] == 0:
                pass
            alts = core.alternatives(trail, max(0, len(prefix) - 1)
                                     if prefix and prefix[-1][0] == 'c'
                                     else len(prefix))
            stack.extend(reversed(alts))
            if time.time() > end or len(res['failures']) >= 20:
                break
        res['left'] = list(reversed(stack))
        res['queries'] = self.ctx.queries - q0
        res['solver_s'] = self.ctx.solver_s - s0
        res['unknowns'] = self.ctx.unknowns - u0
        res['funcs'] = self.funcs
        self.funcs = set()
        return res


def worker_main(conn, module, bounds, tier, seed, timeout_ms, known):
    try:
        w = Worker(module, bounds, tier, seed, timeout_ms, known)
    except BaseException:
        conn.send(('error', traceback.format_exc()))
        return
    conn.send(('ready', None))
    while True:
        msg = conn.recv()
        if msg is None:
            return
        try:
            conn.send(('ok', w.slice(*msg)))
        except BaseException:
            conn.send(('error', traceback.format_exc()))
            return


def explore(module, fnames, bounds, tier, seed, deadline, known=(),
            nworkers=8, timeout_ms=20000, max_witness=300, stop_after=4,
            verbose=False):
    """Explore every harness function; returns the merged results."""
    z3.set_param('smt.random_seed', seed)
    total = {'failures': [], 'inconclusive': [], 'witnesses': [],
             'status': collections.Counter(), 'covers': set(), 'checks': 0,
             'events': 0, 'paths': 0, 'queries': 0, 'solver_s': 0.0,
             'unknowns': 0, 'funcs': set(), 'complete': True, 'errors': [],
             'per_fn': collections.Counter(), 'left': 0}
    queue = collections.deque((f, [[]]) for f in fnames)
    mpc = mp.get_context('spawn')
    workers = []
    n = nworkers

    def spawn():
        a, b = mpc.Pipe()
        p = mpc.Process(target=worker_main, args=(
            b, module, bounds, tier, seed, timeout_ms, known), daemon=True)
        p.start()
        b.close()
        w = [a, p, 'starting', None]
        workers.append(w)

    start = time.time()
    for _ in range(min(n, max(1, len(fnames)))):
        spawn()
    first_fail = None
    rng = random.Random(seed)
    wcount = collections.Counter()
    stop = False
    while True:
        now = time.time()
        if now > deadline:
            total['complete'] = False
            stop = True
        if first_fail and (now > first_fail + 8 or
                           len(total['failures']) >= stop_after):
            total['complete'] = False
            stop = True
        if stop:
            break
        # split work among idle workers
        if queue and len(workers) < n and all(
                w[2] != 'idle' for w in workers) and \
                now - start > 1.0:
            spawn()
        for w in workers:
            if w[2] == 'idle' and queue:
                fname, prefixes = queue.popleft()
                idle = sum(1 for x in workers if x[2] == 'idle')
                if len(prefixes) > 1 and len(queue) < n:
                    k = max(1, len(prefixes) // (2 * n))
                    rest = prefixes[k:]
                    prefixes = prefixes[:k]
                    queue.append((fname, rest))
                done = total['per_fn'][fname]
                prob = min(1.0, max_witness / float(
                    max(1, done) * len(fnames)) * 2)
                w[0].send((fname, prefixes, 1.5 if now - start > 3 else 0.6,
                           prob))
                w[2] = 'busy'
                w[3] = fname
        busy = [w for w in workers if w[2] in ('busy', 'starting')]
        if not queue and not any(w[2] == 'busy' for w in workers):
            if not any(w[2] == 'starting' for w in workers) or True:
                break
        ready = mp.connection.wait([w[0] for w in busy], timeout=0.5)
        for w in busy:
            if w[0] not in ready:
                continue
            try:
                kind, r = w[0].recv()
            except EOFError:
                kind, r = 'error', 'worker died while running %s' % w[3]
            if kind == 'ready':
                w[2] = 'idle'
                continue
            if kind == 'error':
                total['errors'].append(r)
                w[2] = 'dead'
                stop = True
                continue
            w[2] = 'idle'
            for k in ('failures', 'inconclusive'):
                total[k].extend(r[k])
            for k in ('checks', 'events', 'paths', 'queries', 'solver_s',
                      'unknowns'):
                total[k] += r[k]
            total['status'] += r['status']
            total['covers'] |= r['covers']
            total['funcs'] |= r['funcs']
            total['per_fn'][w[3]] += r['paths']
            total['witnesses'].extend(r['witnesses'])
            if r['failures'] and first_fail is None:
                first_fail = time.time()
            if r['left']:
                left = r['left']
                parts = max(1, min(len(left), 4))
                k = (len(left) + parts - 1) // parts
                for i in range(0, len(left), k):
                    queue.appendleft((w[3], left[i:i + k]))
            if verbose and rng.random() < 0.05:
                sys.stderr.write('paths %d queue %d t %.0f\n' % (
                    total['paths'], len(queue), time.time() - start))
        if all(w[2] == 'dead' for w in workers):
            total['complete'] = False
            break
    total['left'] = sum(len(p) for _, p in queue)
    if total['left'] or any(w[2] == 'busy' for w in workers):
        total['complete'] = False
    for w in workers:
        w[1].kill()
    for w in workers:
        w[1].join()
    wit = total['witnesses']
    if len(wit) > max_witness:
        # keep a sample, spread over the functions
        byfn = collections.defaultdict(list)
        for x in wit:
            byfn[x[0]].append(x)
        out = []
        for f, xs in sorted(byfn.items()):
            rng.shuffle(xs)
            byfn[f] = xs
        i = 0
        while len(out) < max_witness:
            for f in sorted(byfn):
                if i < len(byfn[f]):
                    out.append(byfn[f][i])
            i += 1
        total['witnesses'] = out
    total['explore_s'] = time.time() - start
    return total
