"""datetime and time: calendar arithmetic on ordinals, symbolic or not.
Local time is UTC; today() and time() are set by the harness."""
import time as _time
import datetime as _dt
import z3
from .. import core
from ..core import Unsupported
from ..symtypes import (DateText, Sym, SymInt, SymReal, SymBool, SymStr, is_sym, mkbool,
                        mkint, num_expr, lazy_str, holds, bool_expr, join)
from .. import py2rt
from . import regex

MINYEAR, MAXYEAR = 1, 9999
MAXORD = 3652059
_CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
_DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
_MONTHS = ('January February March April May June July August September '
           'October November December').split()
_DAYS = 'Monday Tuesday Wednesday Thursday Friday Saturday Sunday'.split()

CLOCK = {'today': None}          # set per path by the harness


def _e(x):
    return num_expr(x)[1]


def _any_sym(*a):
    return any(is_sym(x) for x in a)


def leap(y):
    if not is_sym(y):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    e = y.e
    return z3.And(e % 4 == 0, z3.Or(e % 100 != 0, e % 400 == 0))


def dim(y, m):
    """z3/int days in month."""
    if not _any_sym(y, m):
        return _DIM[m - 1] + (1 if m == 2 and leap(y) else 0)
    l = leap(y)
    l = z3.BoolVal(l) if isinstance(l, bool) else l
    m = _e(m)
    return z3.If(m == 2, z3.If(l, z3.IntVal(29), z3.IntVal(28)),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11),
                       z3.IntVal(30), z3.IntVal(31)))


def ymd_ord(y, m, d):
    if not _any_sym(y, m, d):
        return _dt.date(y, m, d).toordinal()
    l = leap(y)
    l = z3.BoolVal(l) if isinstance(l, bool) else l
    y, m, d = _e(y), _e(m), _e(d)
    p = y - 1
    cum = z3.IntVal(_CUM[11])
    for k in range(10, -1, -1):
        cum = z3.If(m == k + 1, z3.IntVal(_CUM[k]), cum)
    return SymInt(z3.simplify(
        365 * p + p / 4 - p / 100 + p / 400 + cum +
        z3.If(z3.And(m > 2, l), z3.IntVal(1), z3.IntVal(0)) + d))


class timedelta(object):
    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0,
                 minutes=0, hours=0, weeks=0):
        if microseconds or milliseconds:
            raise Unsupported('sub-second timedelta')
        s = seconds + 60 * minutes + 3600 * hours
        if is_sym(s) or s:
            self.days = days + 7 * weeks + py2rt._div(s, 86400)
            self.seconds = s % 86400
        else:
            self.days = days + 7 * weeks
            self.seconds = 0
        self.microseconds = 0

    def _t(self):
        if not is_sym(self.seconds) and self.seconds == 0:
            return None
        return self.days * 86400 + self.seconds

    def total(self):
        return self.days * 86400 + self.seconds

    def total_seconds(self):
        return py2rt.conv_float(self.total())

    def __add__(self, o):
        if isinstance(o, timedelta):
            return timedelta(self.days + o.days, self.seconds + o.seconds)
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return timedelta(self.days - o.days, self.seconds - o.seconds)
        return NotImplemented

    def __neg__(self):
        return timedelta(-self.days, -self.seconds)

    def __abs__(self):
        return -self if self.total() < 0 else self

    def __mul__(self, k):
        return timedelta(self.days * k, self.seconds * k)

    __rmul__ = __mul__

    def __floordiv__(self, k):
        return timedelta(0, py2rt._div(self.total(), k))

    __truediv__ = __div__ = __floordiv__

    def _cmpv(self, o):
        return (self.total(), o.total())

    def __eq__(self, o):
        if not isinstance(o, timedelta):
            return False
        a, b = self._cmpv(o)
        return py2rt._eq(a, b)

    def __ne__(self, o): return py2rt.z_not(self.__eq__(o))

    def __lt__(self, o):
        a, b = self._cmpv(o)
        return a < b

    def __le__(self, o):
        a, b = self._cmpv(o)
        return a <= b

    def __gt__(self, o):
        a, b = self._cmpv(o)
        return a > b

    def __ge__(self, o):
        a, b = self._cmpv(o)
        return a >= b

    def __hash__(self):
        return hash(self.total())

    def __bool__(self):
        return bool(self.total() != 0)

    def __str__(self):
        return 'timedelta'


def _split_const(e):
    """(e', c) with e = e' + c."""
    if z3.is_add(e):
        ch = e.children()
        cs = [x.as_long() for x in ch if z3.is_int_value(x)]
        rest = [x for x in ch if not z3.is_int_value(x)]
        if cs and rest:
            return (z3.simplify(z3.Sum(rest)) if len(rest) > 1
                    else rest[0]), sum(cs)
    return e, 0


class DateField(SymInt):
    """Year, month or day of a symbolic date, tied to it only when used."""
    __slots__ = ('src', 'f', '_v')

    def __init__(self, src, f):
        self.src, self.f, self._v = src, f, None

    @property
    def e(self):
        if self._v is None:
            self._v = self.src._ymd()['ymd'.index(self.f)].e
        return self._v

    def _years(self, op, k):
        """Compare a year with a whole number by day number."""
        o = self.src.toordinal()

        def first(y):
            return (1 if y < 1 else MAXORD + 1 if y > 9999 else
                    _dt.date(y, 1, 1).toordinal())
        if op == 'lt':
            return o < first(k)
        if op == 'le':
            return o < first(k + 1)
        if op == 'gt':
            return o >= first(k + 1)
        return o >= first(k)

    def __lt__(self, o):
        if self.f == 'y' and type(o) is int:
            return self._years('lt', o)
        return SymInt.__lt__(self, o)

    def __le__(self, o):
        if self.f == 'y' and type(o) is int:
            return self._years('le', o)
        return SymInt.__le__(self, o)

    def __gt__(self, o):
        if self.f == 'y' and type(o) is int:
            return self._years('gt', o)
        return SymInt.__gt__(self, o)

    def __ge__(self, o):
        if self.f == 'y' and type(o) is int:
            return self._years('ge', o)
        return SymInt.__ge__(self, o)


class date(object):
    def __init__(self, year, month, day):
        y, m, d = year, month, day
        if isinstance(y, DateField) and isinstance(m, DateField) and \
                isinstance(d, DateField) and y.f + m.f + d.f == 'ymd' and \
                y.src is m.src is d.src:
            self._y, self._o = None, y.src._o
            self._o = y.src.toordinal()
            return
        for v in (y, m, d):
            if not isinstance(v, (int, SymInt)):
                raise TypeError('an integer is required')
        if not _any_sym(y, m, d):
            _dt.date(y, m, d)
        else:
            ok = z3.And(_e(y) >= 1, _e(y) <= 9999, _e(m) >= 1, _e(m) <= 12,
                        _e(d) >= 1, _e(d) <= dim(y, m))
            if not core.CTX.branch(ok):
                raise ValueError('day is out of range for month')
        self._y = (y, m, d)
        self._o = None

    @classmethod
    def fromordinal(cls, n):
        if is_sym(n):
            if not core.CTX.branch(z3.And(n.e >= 1, n.e <= MAXORD)):
                raise OverflowError('date value out of range')
        else:
            if not 1 <= n <= MAXORD:
                raise OverflowError('date value out of range')
        r = cls.__new__(cls)
        r._y = None
        r._o = n
        return r

    @classmethod
    def today(cls):
        t = CLOCK['today']
        if t is None:
            raise Unsupported('today() without a harness clock')
        return date.fromordinal(t.toordinal())

    def _ymd(self):
        if self._y is None:
            n = self._o
            if not is_sym(n):
                r = _dt.date.fromordinal(n)
                self._y = (r.year, r.month, r.day)
            else:
                tab = core.CTX.__dict__.setdefault('ordtab', {})
                key = n.e.get_id()
                got = tab.get(key)
                if got is None:
                    c = core.CTX
                    y, m, d = (SymInt(c.fresh_int(x)) for x in 'ymd')
                    c.assume(z3.And(
                        y.e >= 1, y.e <= 9999, m.e >= 1, m.e <= 12,
                        d.e >= 1, d.e <= dim(y, m),
                        _e(ymd_ord(y, m, d)) == n.e))
                    got = tab[key] = (n, (y, m, d))
                self._y = got[1]
        return self._y

    def _field(self, i):
        if self._y is None and is_sym(self._o):
            return DateField(self, 'ymd'[i])
        return self._ymd()[i]

    year = property(lambda s: s._field(0))
    month = property(lambda s: s._field(1))
    day = property(lambda s: s._field(2))

    def toordinal(self):
        if self._o is None:
            self._o = ymd_ord(*self._y)
        return self._o

    def weekday(self):
        n = self.toordinal()
        if not is_sym(n):
            return (n + 6) % 7
        e, c = _split_const(z3.simplify(n.e))
        tab = core.CTX.__dict__.setdefault('wdtab', {})
        got = tab.get(e.get_id())
        if got is None:
            w = core.CTX.fresh_int('wd')
            q = core.CTX.fresh_int('wk')
            core.CTX.assume(z3.And(w >= 0, w <= 6, e == 7 * q + w))
            got = tab[e.get_id()] = (e, w)
        t = got[1] + (c + 6) % 7
        return mkint(z3.simplify(z3.If(t >= 7, t - 7, t)))

    def isoweekday(self):
        return self.weekday() + 1

    def replace(self, year=None, month=None, day=None):
        y, m, d = self._ymd()
        return date(y if year is None else year, m if month is None
                    else month, d if day is None else day)

    def _add(self, n):
        return date.fromordinal(self.toordinal() + n)

    def __add__(self, o):
        if isinstance(o, timedelta):
            return self._add(o.days)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self._add(-o.days)
        if isinstance(o, date):
            return timedelta(self.toordinal() - o.toordinal())
        return NotImplemented

    def __eq__(self, o):
        if not isinstance(o, date):
            return False
        return py2rt._eq(self.toordinal(), o.toordinal())

    def __ne__(self, o): return py2rt.z_not(self.__eq__(o))

    def _need(self, o):
        if not isinstance(o, date):
            raise TypeError("can't compare datetime.date to %s" %
                            type(o).__name__)
        return o.toordinal()

    def __lt__(self, o):
        b = self._need(o)
        return self.toordinal() < b

    def __le__(self, o):
        b = self._need(o)
        return self.toordinal() <= b

    def __gt__(self, o):
        b = self._need(o)
        return self.toordinal() > b

    def __ge__(self, o):
        b = self._need(o)
        return self.toordinal() >= b

    def _key_symbolic(self):
        return is_sym(self.toordinal())

    def __hash__(self):
        return hash(self.toordinal())

    def timetuple(self):
        return struct_time((self.year, self.month, self.day, 0, 0, 0,
                            self.weekday(), 0, -1), self)

    def strftime(self, fmt):
        return _strftime(fmt, self, 0, 0, 0)

    def isoformat(self):
        return self.strftime('%Y-%m-%d')

    def ctime(self):
        return self.strftime('%a %b %d 00:00:00 %Y')

    __str__ = isoformat

    def __format__(self, spec):
        return self.strftime(spec)

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


date.min = date(1, 1, 1)
date.max = date(9999, 12, 31)


class datetime(date):
    def __init__(self, year, month, day, hour=0, minute=0, second=0,
                 microsecond=0, tzinfo=None):
        date.__init__(self, year, month, day)
        for v, hi in ((hour, 23), (minute, 59), (second, 59)):
            if is_sym(v):
                if not core.CTX.branch(z3.And(_e(v) >= 0, _e(v) <= hi)):
                    raise ValueError('time out of range')
            elif not 0 <= v <= hi:
                raise ValueError('time out of range')
        self.hour, self.minute, self.second = hour, minute, second
        self.microsecond = 0

    def date(self):
        r = date.__new__(date)
        r._y, r._o = self._y, self._o
        return r

    @classmethod
    def strptime(cls, text, fmt):
        return cls(*strptime(text, fmt)[:6])

    @classmethod
    def combine(cls, d, t):
        raise Unsupported('datetime.combine')

    @classmethod
    def now(cls, tz=None):
        t = date.today()
        return cls(t.year, t.month, t.day)

    utcnow = today = now

    @classmethod
    def fromtimestamp(cls, x):
        t = localtime(x)
        return cls(*t[:6])

    def _secs(self):
        return (self.toordinal() * 86400 + self.hour * 3600 +
                self.minute * 60 + self.second)

    def _from(self, s):
        o = py2rt._div(s, 86400)
        r = datetime.__new__(datetime)
        b = date.fromordinal(o)
        r._y, r._o = b._y, b._o
        t = s % 86400
        r.hour = py2rt._div(t, 3600)
        r.minute = py2rt._div(t, 60) % 60
        r.second = t % 60
        r.microsecond = 0
        return r

    def __add__(self, o):
        if isinstance(o, timedelta):
            return self._from(self._secs() + o.total())
        return NotImplemented

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return self._from(self._secs() - o.total())
        if isinstance(o, datetime):
            return timedelta(0, self._secs() - o._secs())
        return NotImplemented

    def __eq__(self, o):
        return isinstance(o, datetime) and py2rt._eq(self._secs(), o._secs())

    def __ne__(self, o): return py2rt.z_not(self.__eq__(o))

    def _needt(self, o):
        if not isinstance(o, datetime):
            raise TypeError("can't compare datetime to %s" %
                            type(o).__name__)
        return o._secs()

    def __lt__(self, o): return self._secs() < self._needt(o)
    def __le__(self, o): return self._secs() <= self._needt(o)
    def __gt__(self, o): return self._secs() > self._needt(o)
    def __ge__(self, o): return self._secs() >= self._needt(o)
    def __hash__(self): return hash(self._secs())

    def timetuple(self):
        return struct_time((self.year, self.month, self.day, self.hour,
                            self.minute, self.second, self.weekday(), 0,
                            -1), self)

    def strftime(self, fmt):
        return _strftime(fmt, self, self.hour, self.minute, self.second)

    def isoformat(self, sep='T'):
        return self.strftime('%Y-%m-%d' + sep + '%H:%M:%S')


class struct_time(tuple):
    def __new__(cls, t, d=None):
        r = tuple.__new__(cls, t)
        r._date = d
        return r

    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])


def _digits(v, w):
    return py2rt.format_mod('%%0%dd' % w, (v,))


def _named(v, names, base):
    if is_sym(v):
        for i, n in enumerate(names[:-1]):
            if v == i + base:
                return n
        return names[-1]
    return names[v - base]


def _strftime(fmt, d, H, M, S, early=False):
    out, i, symbolic = [], 0, False
    if isinstance(fmt, SymStr):
        fmt = str(fmt)
    y = d.year
    if is_sym(y):
        if not early and holds(bool_expr(y < 1900)):
            raise ValueError('year is before 1900')
    elif y < 1900 and not early:
        raise ValueError('year=%d is before 1900' % y)

    def build():
        out, i = [], 0
        while i < len(fmt):
            c = fmt[i]
            if c != '%' or i + 1 >= len(fmt):
                out.append(c)
                i += 1
                continue
            k = fmt[i + 1]
            i += 2
            if k == 'Y': out.append(_digits(d.year, 4))
            elif k == 'y': out.append(_digits(d.year % 100, 2))
            elif k == 'm': out.append(_digits(d.month, 2))
            elif k == 'd': out.append(_digits(d.day, 2))
            elif k == 'H': out.append(_digits(H, 2))
            elif k == 'I': out.append(_digits((H + 11) % 12 + 1, 2))
            elif k == 'M': out.append(_digits(M, 2))
            elif k == 'S': out.append(_digits(S, 2))
            elif k == 'p': out.append('AM' if H < 12 else 'PM')
            elif k == 'Z': out.append('UTC')
            elif k == 'B': out.append(_named(d.month, _MONTHS, 1))
            elif k == 'b': out.append(_named(
                d.month, [x[:3] for x in _MONTHS], 1))
            elif k == 'A': out.append(_named(d.weekday(), _DAYS, 0))
            elif k == 'a': out.append(_named(
                d.weekday(), [x[:3] for x in _DAYS], 0))
            elif k == 'w': out.append(_digits((d.weekday() + 1) % 7, 1))
            elif k == 'j': out.append(_digits(
                d.toordinal() - ymd_ord(d.year, 1, 1) + 1, 3))
            elif k == '%': out.append('%')
            else:
                raise Unsupported('strftime %%%s' % k)
        return join('', out)
    if _any_sym(d.toordinal(), H, M, S):
        if fmt == '%Y%m%d':
            k = date.fromordinal(d.toordinal())
            return DateText(k, lambda: _ymd_text(k))
        return lazy_str(build)
    return build()


def _ymd_text(d):
    """YYYYMMDD of a symbolic date (year has four digits: no forks)."""
    y, m, dd = d._ymd()
    y, m, dd = _e(y), _e(m), _e(dd)
    ch = [y / 1000, y / 100 % 10, y / 10 % 10, y % 10, m / 10, m % 10,
          dd / 10, dd % 10]
    ch = [z3.simplify(c + 48) for c in ch]
    return SymStr([c.as_long() if z3.is_int_value(c) else c for c in ch])


# ---------------------------------------------------------------- module time
_FMT_RE = {'Y': r'(?P<Y>\d\d\d\d)', 'm': r'(?P<m>1[0-2]|0[1-9]|[1-9])',
           'd': r'(?P<d>3[0-1]|[1-2]\d|0[1-9]|[1-9]| [1-9])',
           'H': r'(?P<H>2[0-3]|[0-1]\d|\d)', 'M': r'(?P<M>[0-5]\d|\d)',
           'S': r'(?P<S>6[0-1]|[0-5]\d|\d)', 'y': r'(?P<y>\d\d)', '%': '%'}


def strptime(text, fmt='%a %b %d %H:%M:%S %Y'):
    if not isinstance(text, (str, SymStr)):
        raise TypeError('expected string')
    if isinstance(text, DateText) and fmt == '%Y%m%d':
        d = text.d
        return struct_time((d.year, d.month, d.day, 0, 0, 0, d.weekday(), 1,
                            -1), d)
    rx, i = '', 0
    while i < len(fmt):
        c = fmt[i]
        if c == '%':
            k = fmt[i + 1]
            if k not in _FMT_RE:
                raise Unsupported('strptime %%%s' % k)
            rx += _FMT_RE[k]
            i += 2
        elif c.isspace():
            rx += r'\s+'
            i += 1
        else:
            rx += regex.escape(c)
            i += 1
    m = regex.compile(rx, regex.I).match(text)
    if m is None:
        raise ValueError('time data %s does not match format' % ('',))
    if m.end() != len(text):
        raise ValueError('unconverted data remains')
    g = m.groupdict()
    v = {'Y': 1900, 'm': 1, 'd': 1, 'H': 0, 'M': 0, 'S': 0}
    for k in list(g):
        v[k] = py2rt.conv_int(g[k])
    if 'y' in v:
        y = v['y']
        v['Y'] = (2000 + y if y <= 68 else 1900 + y)
    d = date(v['Y'], v['m'], v['d'])
    return struct_time((d.year, d.month, d.day, v['H'], v['M'], v['S'],
                        d.weekday(), 1, -1), d)


_EPOCH = _dt.date(1970, 1, 1).toordinal()


def mktime(t):
    y, m, d, H, M, S = t[:6]
    dd = getattr(t, '_date', None) or date(y, m, d)
    s = (dd.toordinal() - _EPOCH) * 86400 + H * 3600 + M * 60 + S
    return py2rt.conv_float(s)


def localtime(x=None):
    if x is None:
        x = time()
    if isinstance(x, SymReal):
        x = SymInt(z3.ToInt(x.e))
    elif isinstance(x, float):
        import math
        x = int(math.floor(x))
    o = py2rt._div(x, 86400) + _EPOCH
    t = x % 86400
    d = date.fromordinal(o)
    if is_sym(o):
        d._ymd()
    return struct_time((d.year, d.month, d.day, py2rt._div(t, 3600),
                        py2rt._div(t, 60) % 60, t % 60, d.weekday(), 1, 0),
                       d)


gmtime = localtime


def time():
    t = CLOCK['today']
    if t is None:
        return 0.0
    return py2rt.conv_float((t.toordinal() - _EPOCH) * 86400)


def strftime(fmt, t=None):
    if t is None:
        t = localtime()
    d = getattr(t, '_date', None) or date(t[0], t[1], t[2])
    return _strftime(fmt, d, t[3], t[4], t[5], early=True)


def sleep(x):
    pass


tzname = ('UTC', 'UTC')
timezone = 0
daylight = 0
