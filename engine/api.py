"""The harness interface in the symbolic engine (see jy/api.py for the
concrete twin that runs under Jython against the real code)."""
import z3
from . import core
from .core import Infeasible, CheckFailed, Unsupported
from .symtypes import (DateText, Sym, SymBool, SymInt, SymReal, SymStr, Tok, in_codes,
                       is_sym, mkbool, num_expr, to_real, codes_of, mkint,
                       bool_expr)
from . import py2rt
from .stubs import dt


class Inputs(object):
    """Named inputs of one path."""

    def __init__(self):
        self.order = []

    def add(self, name, kind, val):
        self.order.append((name, kind, val))


def frac(x):
    return [x.numerator_as_long(), x.denominator_as_long()]


def model_value(m, v):
    """Concrete JSON value of a logged value in model m."""
    if isinstance(v, SymBool):
        return bool(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, SymInt):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, SymReal):
        r = m.eval(v.e, model_completion=True)
        if z3.is_algebraic_value(r):
            r = r.approx(20)
        return {'q': frac(r)}
    if isinstance(v, DateText) and v._thunk is not None:
        return ordtext(model_value(m, v.d.toordinal()))
    if isinstance(v, SymStr):
        out = []
        for c in v.ch:
            if isinstance(c, int):
                out.append(chr(c))
            elif isinstance(c, Tok):
                q = model_value(m, c.num)
                x = q['q'][0] / q['q'][1] if isinstance(q, dict) else q
                out.append(py2rt.py2_str(x) if c.fmt == 's' else
                           py2rt.format_mod(tok_fmt(c.fmt), (x,)))
            else:
                out.append(chr(m.eval(c, model_completion=True).as_long()))
        return ''.join(out)
    if isinstance(v, (list, tuple)):
        return [model_value(m, x) for x in v]
    if isinstance(v, dict):
        return sorted(([model_value(m, k), model_value(m, x)]
                       for k, x in list(v.items())), key=repr)
    if isinstance(v, py2rt.PSet):
        return sorted((model_value(m, x) for x in v), key=repr)
    if isinstance(v, dt.date):
        return {'date': model_value(m, v.toordinal())}
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        return {'f': v}
    raise TypeError('cannot log %r' % type(v))


def ordtext(n):
    import datetime
    d = datetime.date.fromordinal(n)
    return '%04d%02d%02d' % (d.year, d.month, d.day)


def tok_fmt(f):
    # stored as conv+prec (e.g. 'f.6') or a complete spec
    if f[0].isalpha():
        return '%' + f[1:] + f[0]
    return '%' + f


def snapshot(v):
    """Deep copy of containers; forces lazy text."""
    if isinstance(v, SymStr):
        if not isinstance(v, DateText):
            v.ch
        return v
    if isinstance(v, list):
        return [snapshot(x) for x in v]
    if isinstance(v, tuple):
        return tuple(snapshot(x) for x in v)
    if isinstance(v, dict):
        return [(snapshot(k), snapshot(x)) for k, x in list(v.items())] \
            and _copydict(v)
    return v


def _copydict(v):
    d = py2rt.PDict()
    for k, x in list(v.items()):
        d[k] = snapshot(x)
    return d


class Api(object):
    symbolic = True

    def __init__(self, ctx, bounds, tier, importer):
        self.ctx = ctx
        self.b = bounds
        self.tier = tier
        self.importer = importer
        self.inputs = Inputs()
        self.logs = []
        self.covered = []
        self.failures = []          # (label, model inputs)
        self.nchecks = 0
        self.inconclusive = []
        self.known_active = ()

    # ---- inputs
    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.inputs.add(name, 'int', v)
        self.ctx.assume(z3.And(v >= lo, v <= hi))
        if lo == hi:
            return lo
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs.add(name, 'bool', v)
        return SymBool(v)

    def real(self, name, lo, hi, den=1):
        """Float k/den with lo <= value <= hi (den a power of two)."""
        v = z3.Int(name)
        self.inputs.add(name, ('real', den), v)
        self.ctx.assume(z3.And(v >= lo * den, v <= hi * den))
        return SymReal(z3.ToReal(v) / z3.RealVal(den))

    def choice(self, name, options):
        k = self.ctx.choose(len(options))
        self.inputs.add(name, 'choice', k)
        return options[k]

    def flag(self, name):
        """A boolean explored as two separate cases."""
        return self.choice(name, [False, True])

    def str(self, name, lo, hi, alphabet):
        n = lo + self.ctx.choose(hi - lo + 1)
        codes = [ord(c) for c in alphabet]
        ch = []
        for i in range(n):
            v = z3.Int('%s.%d' % (name, i))
            c = in_codes(v, codes)
            self.ctx.assume(c)
            ch.append(v)
        self.inputs.add(name, 'str', ch)
        if not ch:
            return ''
        if len(set(codes)) == 1:
            return chr(codes[0]) * n
        return SymStr(ch)

    def date(self, name, lo, hi):
        """datetime.date between two (y, m, d)."""
        a, b = dt.date(*lo).toordinal(), dt.date(*hi).toordinal()
        v = z3.Int(name)
        self.inputs.add(name, 'date', v)
        self.ctx.assume(z3.And(v >= a, v <= b))
        return dt.date.fromordinal(SymInt(v)) if a != b else \
            dt.date.fromordinal(a)

    def ymd(self, name, lo, hi):
        """Text YYYYMMDD of a symbolic date, built from year, month, day."""
        return self.date(name, lo, hi).strftime('%Y%m%d')

    # ---- logic
    def And(self, *a): return py2rt.z_and(a)
    def Or(self, *a): return py2rt.z_or(a)
    def Not(self, a): return py2rt.z_not(self._truth(a))
    def Implies(self, a, b): return py2rt.z_or([self.Not(a), b])

    def Iff(self, a, b):
        a, b = self._truth(a), self._truth(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return mkbool(z3.simplify(bool_expr(a) == bool_expr(b)))

    def Xor(self, a, b): return self.Not(self.Iff(a, b))

    def _truth(self, a):
        if isinstance(a, (bool, SymBool)):
            return a
        if isinstance(a, SymInt):
            return mkbool(a.e != 0)
        return bool(a)

    def all(self, it): return py2rt.z_and(list(it))
    def any(self, it): return py2rt.z_or(list(it))

    def count(self, it):
        n = 0
        for x in it:
            n = n + self.ite(x, 1, 0)
        return n

    def ite(self, c, a, b):
        if isinstance(c, SymBool):
            na, nb = num_expr(a), num_expr(b)
            if na is None or nb is None:
                if isinstance(a, (bool, SymBool)) and isinstance(
                        b, (bool, SymBool)):
                    return mkbool(z3.If(c.e, bool_expr(a), bool_expr(b)))
                return a if c else b
            (ka, ea), (kb, eb) = na, nb
            if ka != kb:
                ea, eb, ka = to_real(ka, ea), to_real(kb, eb), 'r'
            r = z3.If(c.e, ea, eb)
            return SymInt(r) if ka == 'i' else SymReal(r)
        return a if c else b

    def min(self, *a): return py2rt.py2_min(*a)
    def max(self, *a): return py2rt.py2_max(*a)

    def concrete(self, v):
        """Make a value concrete, exploring all its values."""
        if isinstance(v, SymInt):
            return v.__index__()
        if isinstance(v, SymBool):
            return bool(v)
        if isinstance(v, SymStr):
            return v.realize()
        return v

    # ---- verdicts
    def assume(self, c):
        c = self._truth(c)
        self.ctx.assume(c.e if isinstance(c, SymBool) else c)

    def check(self, c, label):
        self.nchecks += 1
        c = self._truth(c)
        if c is True:
            return
        ctx = self.ctx
        if c is False:
            self.failures.append((label, self.concretize(ctx.get_model())))
            raise CheckFailed(label)
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return
        i = len(ctx.trail)
        if i < len(ctx.prefix):
            # already decided when this prefix was first explored
            ctx.assume(e)
            return
        ctx.solver.push()
        ctx.solver.add(z3.Not(e))
        r = ctx.check()
        if r == z3.sat:
            m = ctx.last.model()
            self.failures.append((label, self.concretize(m)))
        elif r == z3.unknown:
            self.inconclusive.append(label)
        ctx.solver.pop()
        if r == z3.unsat:
            # implied: remember it as a lemma without a new event
            ctx.assume(e)
            return
        try:
            ctx.assume(e)
        except Infeasible:
            raise CheckFailed(label)

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        self.covered.append(label)

    def log(self, label, v):
        self.logs.append((label, snapshot(v)))

    def known(self, kf, cond):
        """True where a listed known finding explains a failure."""
        if kf in self.known_active:
            return cond
        return False

    # ---- environment
    def set_today(self, d):
        dt.CLOCK['today'] = d

    def patch(self, obj, name, val):
        """Replace an attribute of a module until the path ends."""
        setattr(obj, name, val)

    def load(self, name):
        return self.importer.load(name)

    def script(self, name):
        """Run a tool of the repository as the main program."""
        self.importer.script(name)

    # ---- results
    def concretize(self, m):
        out = {}
        for name, kind, v in self.inputs.order:
            if kind == 'choice':
                out[name] = v
            elif kind == 'int' or kind == 'date':
                out[name] = m.eval(v, model_completion=True).as_long()
            elif kind == 'bool':
                out[name] = bool(z3.is_true(
                    m.eval(v, model_completion=True)))
            elif kind == 'str':
                out[name] = [m.eval(c, model_completion=True).as_long()
                             for c in v]
            else:
                out[name] = [m.eval(v, model_completion=True).as_long(),
                             kind[1]]
        return out
