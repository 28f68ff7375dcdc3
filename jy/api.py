"""The harness interface with concrete inputs, run by Jython on the real
code (concrete twin of engine/api.py)."""
import datetime
import sys


class AssumeFalse(Exception):
    pass


class CheckFailure(Exception):
    pass


class Api(object):
    symbolic = False

    def __init__(self, inputs, bounds, tier, known):
        self.inp = inputs
        self.b = bounds
        self.tier = tier
        self.logs = []
        self.covered = []
        self.failures = []
        self.known_active = known
        self._undo = []

    def _get(self, name, default):
        return self.inp.get(name, default)

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise AssumeFalse()
        return int(v)

    def bool(self, name):
        return bool(self._get(name, False))

    def real(self, name, lo, hi, den=1):
        n, d = self._get(name, [lo * den, den])
        if not lo * den <= n <= hi * den:
            raise AssumeFalse()
        return float(n) / den

    def choice(self, name, options):
        return options[self._get(name, 0)]

    def flag(self, name):
        return self.choice(name, [False, True])

    def str(self, name, lo, hi, alphabet):
        codes = self._get(name, [ord(alphabet[0])] * lo)
        if not lo <= len(codes) <= hi:
            raise AssumeFalse()
        return ''.join([chr(c) if c < 256 else unichr(c) for c in codes])

    def date(self, name, lo, hi):
        d = self._get(name, None)
        if d is None:
            return datetime.date(*lo)
        return datetime.date.fromordinal(d)

    def ymd(self, name, lo, hi):
        return self.date(name, lo, hi).strftime('%Y%m%d')

    def And(self, *a):
        for x in a:
            if not x:
                return False
        return True

    def Or(self, *a):
        for x in a:
            if x:
                return True
        return False

    def Not(self, a): return not a
    def Implies(self, a, b): return (not a) or bool(b)
    def Iff(self, a, b): return bool(a) == bool(b)
    def Xor(self, a, b): return bool(a) != bool(b)
    def all(self, it): return self.And(*list(it))
    def any(self, it): return self.Or(*list(it))

    def count(self, it):
        n = 0
        for x in it:
            if x:
                n += 1
        return n

    def ite(self, c, a, b):
        if c:
            return a
        return b

    def min(self, *a): return min(*a)
    def max(self, *a): return max(*a)
    def concrete(self, v): return v

    def assume(self, c):
        if not c:
            raise AssumeFalse()

    def check(self, c, label):
        if not c:
            self.failures.append(label)

    def fail(self, label):
        self.check(False, label)

    def cover(self, label):
        self.covered.append(label)

    def log(self, label, v):
        self.logs.append((label, jsonable(v)))

    def known(self, kf, cond):
        if kf in self.known_active:
            return cond
        return False

    def set_today(self, d):
        """datetime.date.today() gives d until the case ends."""
        cls = datetime.date
        old = cls.__dict__['today']
        cls.today = classmethod(lambda c: d)

        def undo():
            cls.today = old
        self._undo.append(undo)

    def patch(self, obj, name, val):
        old = obj.__dict__[name]
        setattr(obj, name, val)

        def undo():
            setattr(obj, name, old)
        self._undo.append(undo)

    def finish(self):
        for f in reversed(self._undo):
            f()

    def load(self, name):
        __import__(name)
        return sys.modules[name]

    def script(self, name):
        import imp
        execfile(imp.find_module(name)[1], {
            '__name__': '__main__', '__builtins__': __builtins__})


def jsonable(v):
    if v is None or isinstance(v, (bool, str, unicode)):
        return v
    if isinstance(v, (int, long)):
        return int(v)
    if isinstance(v, float):
        return {'f': v}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return sorted([[jsonable(k), jsonable(x)] for k, x in v.items()],
                      key=repr)
    if isinstance(v, (set, frozenset)):
        return sorted([jsonable(x) for x in v], key=repr)
    if isinstance(v, datetime.date):
        return {'date': v.toordinal()}
    raise TypeError('cannot log %r' % type(v))
