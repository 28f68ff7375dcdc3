"""Path explorer: depth-first symbolic execution by re-execution, one z3
solver whose stack mirrors the decision trail.

Nothing here knows about the code under test.  Values are proxies (symtypes);
every truth test of a symbolic condition lands in Ctx.branch.
"""
import time
import z3

z3.set_param('smt.random_seed', 1)


class Steer(BaseException):
    """Control flow of the explorer; code under test must never catch it."""


class Infeasible(Steer):
    pass


class StopExploring(Steer):
    pass


class Unsupported(Steer):
    """The engine cannot model an operation: the path is inconclusive."""


class Cut(Steer):
    """A stated bound was reached on this path."""


class CheckFailed(Steer):
    """A check is violated on every continuation of this path."""


class Ctx(object):
    def __init__(self, timeout_ms=20000, max_events=20000):
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.max_events = max_events
        self.timeout_ms = timeout_ms
        self.digits = {}
        self.digitcache = {}
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.reset_stack()

    def reset_stack(self):
        self.solver.reset()
        self.trail = []
        self.prefix = []
        self.level_of = []          # trail index of every solver level
        self.asserted = 0           # events whose constraints are asserted

    # ---- a run ---------------------------------------------------------
    def start(self, prefix):
        """Begin a path that must follow `prefix` (list of events)."""
        # how much of the current solver stack is shared with the prefix?
        common = 0
        old = self.trail
        while (common < len(prefix) and common < len(old) and
               old[common][:3] == prefix[common][:3]):
            common += 1
        # keep the solver levels of the common events only
        while self.level_of and self.level_of[-1] >= common:
            self.solver.pop()
            self.level_of.pop()
        self.asserted = common
        self.prefix = prefix
        self.trail = []
        self.model = None
        self.known = {}
        self.fresh_n = 0
        self.keep = []
        self.digits = {}            # code expressions known to be digits
        self.digitcache = {}
        for n in ('objnum', 'ordtab', 'wdtab', 'sqrttab', 'vfs', 'mathhook',
                  'randomhook'):
            self.__dict__.pop(n, None)

    def _replaying(self):
        return len(self.trail) < len(self.prefix)

    def _assert(self, c):
        self.solver.add(c)
        if self.model is not None and not z3.is_true(
                self.model.eval(c, model_completion=True)):
            self.model = None

    def _push(self):
        self.solver.push()
        self.level_of.append(len(self.trail))

    def check(self, *extra):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*extra)
        self.last = self.solver
        if r == z3.unknown:
            # a fresh solver without the incremental history
            for tac in ('smt', 'simple'):
                s2 = z3.Solver() if tac == 'smt' else z3.SimpleSolver()
                s2.set('timeout', self.timeout_ms)
                s2.set('random_seed', 7)
                s2.add(*self.solver.assertions())
                r = s2.check(*extra)
                if r != z3.unknown:
                    self.last = s2
                    break
        self.solver_s += time.time() - t
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def implied(self, c):
        """Whether the path condition implies c (False if undecided)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trail)
        self._tick()
        if i < len(self.prefix):
            if self.prefix[i][0] != 'i':
                raise Unsupported('replay diverged (implied)')
            self.trail.append(self.prefix[i])
        else:
            self.solver.push()
            self.solver.add(z3.Not(c))
            r = self.check()
            self.solver.pop()
            self.trail.append(('i', None, r == z3.unsat, 0))
        self.asserted = max(self.asserted, i + 1)
        return self.trail[i][2]

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise Unsupported('solver unknown on path condition')
            self.model = self.last.model()
        return self.model

    # ---- events: (kind, payload, value, alternatives) ------------------
    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        # assumption events keep replay aligned with the solver stack
        i = len(self.trail)
        self._tick()
        ev = ('a', None, None, 0)
        if i < self.asserted:
            self.trail.append(ev)
            return
        self._push()
        self._assert(c)
        self.trail.append(ev)
        self.asserted = len(self.trail)
        if not self._replaying():
            if self.model is None:
                self.get_model()

    def _tick(self):
        if len(self.trail) > self.max_events:
            raise Cut('event limit')

    def branch(self, c):
        """Truth value of z3 Bool c on this path, forking when both occur."""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        cid = c.get_id()
        got = self.known.get(cid)
        if got is not None:
            return got
        c0 = c
        self.keep.append(c0)
        c = z3.simplify(c)
        if z3.is_true(c):
            self.known[cid] = True
            return True
        if z3.is_false(c):
            self.known[cid] = False
            return False
        sid = c.get_id()
        got = self.known.get(sid)
        if got is not None:
            self.known[cid] = got
            return got
        self.keep.append(c)
        v = self._decide(c)
        self.known[cid] = v
        self.known[sid] = v
        return v

    def _decide(self, c):
        i = len(self.trail)
        self._tick()
        if i < len(self.prefix):
            kind, _, v, alt = self.prefix[i]
            if kind not in 'bf':
                raise Unsupported('replay diverged (%s)' % kind)
            if i >= self.asserted and kind == 'b':
                self._push()
                self._assert(c if v else z3.Not(c))
                self.asserted = i + 1
            elif i >= self.asserted:
                self.asserted = i + 1
            self.trail.append(self.prefix[i])
            return v
        m = self.get_model()
        v = z3.is_true(m.eval(c, model_completion=True))
        other = z3.Not(c) if v else c
        self.solver.push()
        self.solver.add(other)
        r = self.check()
        self.solver.pop()
        if r == z3.unsat:
            self.trail.append(('f', None, v, 0))
            self.asserted = i + 1
            return v
        self._push()
        self._assert(c if v else z3.Not(c))
        self.trail.append(('b', None, v, 1))
        self.asserted = i + 1
        return v

    def choose(self, n):
        """Unconstrained choice of 0..n-1, all explored."""
        i = len(self.trail)
        self._tick()
        if n <= 1:
            return 0
        if i < len(self.prefix):
            ev = self.prefix[i]
            if ev[0] != 'c':
                raise Unsupported('replay diverged (choose)')
            self.trail.append(ev)
        else:
            self.trail.append(('c', n, 0, 1))
        if i >= self.asserted:
            self._push()
            self.asserted = i + 1
        return self.trail[-1][2]

    def realize(self, e, limit=400):
        """Concrete value of the z3 Int/Bool e, exploring all its values."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            i = len(self.trail)
            self._tick()
            if i < len(self.prefix):
                kind, payload, v, alt = self.prefix[i]
                if kind != 'r':
                    raise Unsupported('replay diverged (realize)')
                c = e == payload
                if i >= self.asserted:
                    self._push()
                    self._assert(c if v else z3.Not(c))
                    self.asserted = i + 1
                self.trail.append(self.prefix[i])
                if v:
                    return payload
                continue
            m = self.get_model()
            x = m.eval(e, model_completion=True)
            payload = x.as_long()
            c = e == payload
            self.solver.push()
            self.solver.add(z3.Not(c))
            r = self.check()
            self.solver.pop()
            self._push()
            self._assert(c)
            self.trail.append(('r', payload, True, 0 if r == z3.unsat else 1))
            self.asserted = i + 1
            return payload
        raise Unsupported('too many values to realize')

    def fresh_int(self, hint):
        self.fresh_n += 1
        return z3.Int('%s!%d' % (hint, self.fresh_n))

    def fresh_real(self, hint):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (hint, self.fresh_n))

    def fresh_bool(self, hint):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (hint, self.fresh_n))


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


def alternatives(trail, start):
    """Prefixes still to explore after a finished path, deepest first."""
    out = []
    for i in range(len(trail) - 1, start - 1, -1):
        kind, payload, v, alt = trail[i]
        if not alt:
            continue
        if kind == 'c':
            if v + 1 < payload:
                out.append(trail[:i] + [('c', payload, v + 1,
                                         1 if v + 2 < payload else 0)])
        elif kind == 'b':
            out.append(trail[:i] + [('b', payload, not v, 0)])
        elif kind == 'r':
            out.append(trail[:i] + [('r', payload, not v, 0)])
    return out
