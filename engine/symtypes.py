"""Symbolic proxies: SymBool, SymInt, SymReal (Python 2 float as exact
rational), SymStr (concrete length, symbolic character codes)."""
from fractions import Fraction
from math import gcd
import z3
from . import core
from .core import Unsupported

IntVal = z3.IntVal
T, F = z3.BoolVal(True), z3.BoolVal(False)


class Sym(object):
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def is_sym(x):
    return isinstance(x, Sym)


# ---------------------------------------------------------------- SymBool
class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return core.CTX.branch(self.e)

    def __repr__(self):
        return 'SymBool(%s)' % self.e

    def __hash__(self):
        return hash(bool(self))

    def _b(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __and__(self, o):
        b = self._b(o)
        return mkbool(z3.And(self.e, b)) if b is not None else self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        b = self._b(o)
        return mkbool(z3.Or(self.e, b)) if b is not None else self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        b = self._b(o)
        return mkbool(z3.Xor(self.e, b))

    __rxor__ = __xor__

    def __eq__(self, o):
        b = self._b(o)
        if b is not None:
            return mkbool(self.e == b)
        return self._i() == o

    def __ne__(self, o):
        b = self._b(o)
        if b is not None:
            return mkbool(self.e != b)
        return self._i() != o

    def _i(self):
        return SymInt(z3.If(self.e, IntVal(1), IntVal(0)))

    def __add__(self, o): return self._i() + o
    __radd__ = __add__
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    __rmul__ = __mul__
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __neg__(self):
        if isinstance(self, SymFrac):
            return SymFrac(-self.n, self.d)
        return -self._i()
    def __index__(self): return int(bool(self))
    __int__ = __index__


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bool_expr(x):
    """z3 Bool of a truth value."""
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


# ---------------------------------------------------------------- numbers
def num_expr(x):
    """(kind, z3 expr) of a number; kind 'i' or 'r'; None if not a number."""
    if isinstance(x, SymInt):
        return 'i', x.e
    if isinstance(x, SymReal):
        return 'r', x.e
    if isinstance(x, SymBool):
        return 'i', z3.If(x.e, IntVal(1), IntVal(0))
    if isinstance(x, bool):
        return 'i', IntVal(int(x))
    if isinstance(x, int):
        return 'i', IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return None
        fr = Fraction(x)
        return 'r', z3.Q(fr.numerator, fr.denominator)
    return None


def is_inf(x):
    return isinstance(x, float) and (x != x or x in (float('inf'),
                                                     float('-inf')))


def to_real(kind, e):
    if kind == 'r':
        return e
    if z3.is_int_value(e):
        return z3.RealVal(e.as_long())
    return z3.ToReal(e)


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkreal(e):
    return SymReal(e)


def zabs(e):
    return z3.If(e >= 0, e, -e)


def floordiv_expr(a, b):
    """Python floor division on z3 Ints (b known non-zero)."""
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        return (-a) / IntVal(-b.as_long())
    return z3.If(b > 0, a / b, (-a) / (-b))


def mod_expr(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return a - floordiv_expr(a, b) * b


class SymNum(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _arith(self, o, op, swap=False):
        if is_inf(o):
            return op_inf(self, o, op, swap)
        if isinstance(self, SymFrac) or isinstance(o, SymFrac):
            a, b = frac_of(self), frac_of(o)
            if a is None or b is None:
                return NotImplemented
            if swap:
                a, b = b, a
            r = frac_arith(a, b, op)
            if r is not None:
                return r
        ne = num_expr(o)
        if ne is None:
            return NotImplemented
        ka, ea = num_expr(self)
        kb, eb = ne
        if swap:
            ka, ea, kb, eb = kb, eb, ka, ea
        if ka == 'r' or kb == 'r':
            ea, eb = to_real(ka, ea), to_real(kb, eb)
            if op == '+': return mkreal(ea + eb)
            if op == '-': return mkreal(ea - eb)
            if op == '*': return mkreal(ea * eb)
            if op in ('/', '//', '%'):
                if core.CTX.branch(z3.simplify(eb == 0)):
                    raise ZeroDivisionError('float division')
                if op == '/':
                    return mkfrac(ea, eb)
                q = z3.ToReal(z3.ToInt(ea / eb))
                if op == '//':
                    return mkreal(q)
                return mkreal(ea - q * eb)
            raise Unsupported('real op ' + op)
        if op == '+': return mkint(ea + eb)
        if op == '-': return mkint(ea - eb)
        if op == '*': return mkint(ea * eb)
        if op in ('/', '//', '%'):      # Python 2 int division
            if core.CTX.branch(z3.simplify(eb == 0)):
                raise ZeroDivisionError('integer division or modulo by zero')
            if op == '%':
                return mkint(mod_expr(ea, eb))
            return mkint(floordiv_expr(ea, eb))
        raise Unsupported('int op ' + op)

    def __add__(self, o): return self._arith(o, '+')
    def __radd__(self, o): return self._arith(o, '+', True)
    def __sub__(self, o): return self._arith(o, '-')
    def __rsub__(self, o): return self._arith(o, '-', True)
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, SymStr)):
            return o * self.__index__()
        return self._arith(o, '*')
    __rmul__ = __mul__
    def __truediv__(self, o): return self._arith(o, '/')
    def __rtruediv__(self, o): return self._arith(o, '/', True)
    def __floordiv__(self, o): return self._arith(o, '//')
    def __rfloordiv__(self, o): return self._arith(o, '//', True)
    def __mod__(self, o): return self._arith(o, '%')
    def __rmod__(self, o): return self._arith(o, '%', True)
    def __divmod__(self, o): return (self // o, self % o)
    def __rdivmod__(self, o): return (o // self, o % self)

    def __neg__(self): return (SymInt if isinstance(self, SymInt) else SymReal)(-self.e)
    def __pos__(self): return self
    def __abs__(self):
        if isinstance(self, SymFrac):
            return SymFrac(zabs(self.n), self.d)
        return (SymInt if isinstance(self, SymInt) else SymReal)(zabs(self.e))

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('pow')

    def __rpow__(self, o):
        return o ** self.__index__()

    def _cmp(self, o, op):
        if is_inf(o):
            if o != o:
                return False
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[op]
        if isinstance(self, SymFrac) or isinstance(o, SymFrac):
            a, b = frac_of(self), frac_of(o)
            if a is None or b is None:
                return NotImplemented
            r = frac_cmp(a, b, op)
            if r is not None:
                return r
        ne = num_expr(o)
        if ne is None:
            return NotImplemented
        ka, ea = num_expr(self)
        kb, eb = ne
        if ka != kb:
            ea, eb = to_real(ka, ea), to_real(kb, eb)
        if op == '<': return mkbool(ea < eb)
        if op == '<=': return mkbool(ea <= eb)
        if op == '>': return mkbool(ea > eb)
        if op == '>=': return mkbool(ea >= eb)
        if op == '==': return mkbool(ea == eb)
        return mkbool(ea != eb)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __bool__(self):
        if isinstance(self, SymFrac):
            return core.CTX.branch(self.n != 0)
        return core.CTX.branch(self.e != 0)

    def __repr__(self):
        return '%s(%s)' % (type(self).__name__, self.e)


def op_inf(a, o, op, swap):
    if o != o:
        return o
    if op == '+' or (op == '-' and swap):
        return o
    if op == '-':
        return -o
    raise Unsupported('arithmetic with infinity')


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return core.CTX.realize(self.e)

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __and__(self, o): return self.__index__() & o
    __rand__ = __and__
    def __or__(self, o): return self.__index__() | o
    __ror__ = __or__
    def __xor__(self, o): return self.__index__() ^ o
    def __lshift__(self, o): return self * (1 << o)
    def __rshift__(self, o): return self // (1 << o)
    def __invert__(self): return -self - 1
    def __str__(self): raise Unsupported('native str() of SymInt')

    def bit_length(self):
        return self.__index__().bit_length()


class SymReal(SymNum):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def trunc(self):
        e = self.e
        return mkint(z3.simplify(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))))

    def __int__(self):
        t = self.trunc()
        return t if isinstance(t, int) else t.__index__()

    def __hash__(self):
        raise Unsupported('hash of SymReal')

    def __float__(self):
        e = z3.simplify(self.e)
        if z3.is_rational_value(e):
            return e.numerator_as_long() / e.denominator_as_long()
        raise Unsupported('native float() of SymReal')

    def __str__(self): raise Unsupported('native str() of SymReal')

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


class SymFrac(SymReal):
    """n/d with d > 0 on this path; compared by cross-multiplication."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d):
        self.n, self.d = n, d

    @property
    def e(self):
        return self.n / self.d


def mkfrac(a, b):
    b = z3.simplify(b)
    if z3.is_rational_value(b):
        return mkreal(a / b)
    if core.CTX.implied(b > 0):
        return SymFrac(a, b)
    if core.CTX.implied(b < 0):
        return SymFrac(-a, z3.simplify(-b))
    return mkreal(a / b)


_ONE = z3.RealVal(1)


def frac_of(x):
    if isinstance(x, SymFrac):
        return x.n, x.d
    ne = num_expr(x)
    return None if ne is None else (to_real(*ne), _ONE)


def frac_arith(a, b, op):
    (n, d), (m, e) = a, b
    same = d.eq(e)
    if op in '+-':
        if not same:
            n, m, d = mulr(n, e), mulr(m, d), mulr(d, e)
        return SymFrac(z3.simplify(n + m if op == '+' else n - m), d)
    if op == '*':
        return SymFrac(mulr(n, m), mulr(d, e))
    if op == '/':
        if core.CTX.branch(z3.simplify(m == 0)):
            raise ZeroDivisionError('float division')
        if same:
            return mkfrac(n, m)
        return mkfrac(mulr(n, e), mulr(d, m))
    return None


def mulr(x, y):
    return z3.simplify(x * y)


def frac_cmp(a, b, op):
    (n, d), (m, e) = a, b
    if not d.eq(e):
        n, m = mulr(n, e), mulr(m, d)
    if op == '<': return mkbool(n < m)
    if op == '<=': return mkbool(n <= m)
    if op == '>': return mkbool(n > m)
    if op == '>=': return mkbool(n >= m)
    if op == '==': return mkbool(n == m)
    return mkbool(n != m)


def sround(x, n=0):
    """Python 2 round(): half away from zero, result float."""
    if isinstance(x, SymReal) and n == 0:
        h = z3.Q(1, 2)
        e = x.e
        r = z3.If(e >= 0, z3.ToInt(e + h), -z3.ToInt(-e + h))
        return SymReal(z3.ToReal(r))
    if isinstance(x, (SymInt, SymBool)):
        return SymReal(z3.ToReal(num_expr(x)[1]))
    if is_sym(x):
        raise Unsupported('round of %r' % (x,))
    if n == 0:
        import math
        return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)
    return round(x, n)


# ---------------------------------------------------------------- strings
WS = ' \t\n\r\x0b\x0c'
WS_CODES = tuple(ord(c) for c in WS)


def in_codes(c, codes):
    """z3 Bool / bool: char code c is one of the given codes."""
    if isinstance(c, int):
        return c in codes
    ranges = []
    for k in sorted(set(codes)):
        if ranges and ranges[-1][1] == k - 1:
            ranges[-1][1] = k
        else:
            ranges.append([k, k])
    return in_ranges(c, ranges)


def in_ranges(c, ranges):
    if isinstance(c, int):
        return any(lo <= c <= hi for lo, hi in ranges)
    if isinstance(c, Tok):
        return False
    ranges = list(ranges)
    k = core.CTX.digits.get(c.get_id()) if core.CTX is not None else None
    if k is not None:
        # a digit of a printed number: its code is known to lie in lo..57
        got = set()
        for lo, hi in ranges:
            got.update(range(max(lo, k[0]), min(hi, 57) + 1))
        if not got:
            return False
        if len(got) == 58 - k[0]:
            return True
    parts = [c == lo if lo == hi else z3.And(c >= lo, c <= hi)
             for lo, hi in ranges]
    if not parts:
        return F
    return z3.Or(*parts) if len(parts) > 1 else parts[0]


def holds(c):
    """Fork on a bool / z3 Bool."""
    if isinstance(c, bool):
        return c
    return core.CTX.branch(c)


FLOATCODES = frozenset(map(ord, '0123456789+-.eEinfatyINFATY '))
PLAINCODES = FLOATCODES - {32}


class Tok(object):
    """An unexpanded piece of text inside a SymStr: the text of a float.

    It stands for a non-empty run of digits, sign, point and exponent
    characters; float() gives back the very same number."""
    __slots__ = ('num', 'fmt')

    def __init__(self, num, fmt='s'):
        self.num = num
        self.fmt = fmt


def codes_of(s):
    if isinstance(s, SymStr):
        return s.ch
    return tuple(map(ord, s))


def mkstr(ch):
    ch = tuple(ch)
    for c in ch:
        if not isinstance(c, int):
            return SymStr(ch)
    return ''.join(map(chr, ch))


def is_str(x):
    return isinstance(x, (str, SymStr))


def chars_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Tok) or isinstance(b, Tok):
        if a is b:
            return True
        if isinstance(a, Tok) and isinstance(b, Tok) and a.fmt == b.fmt:
            r = a.num == b.num
            return r if isinstance(r, bool) else r.e
        k = b if isinstance(a, Tok) else a
        t = a if isinstance(a, Tok) else b
        if isinstance(k, int) and k not in (
                PLAINCODES if t.fmt[0] in 'srf' else FLOATCODES):
            return False
        raise Unsupported('comparing float text with characters')
    if isinstance(a, int):
        k = core.CTX.digits.get(b.get_id())
        if k is not None and not k[0] <= a <= 57:
            return False
    elif isinstance(b, int):
        k = core.CTX.digits.get(a.get_id())
        if k is not None and not k[0] <= b <= 57:
            return False
    return a == b


def str_eq(a, b):
    """bool or SymBool: string equality without forking."""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, DateText) or isinstance(b, DateText):
        r = date_cmp(a, b, 'eq')
        if r is not None:
            return r
    ca, cb = codes_of(a), codes_of(b)
    if len(ca) != len(cb):
        return False
    parts = []
    for x, y in zip(ca, cb):
        r = chars_eq(x, y)
        if r is False:
            return False
        if r is not True:
            parts.append(r)
    if not parts:
        return True
    return mkbool(z3.And(*parts) if len(parts) > 1 else parts[0])


def str_lt(a, b, strict=True):
    """SymBool of a < b (or a <= b)."""
    if isinstance(a, str) and isinstance(b, str):
        return a < b if strict else a <= b
    if isinstance(a, DateText) or isinstance(b, DateText):
        r = date_cmp(a, b, 'lt' if strict else 'le')
        if r is not None:
            return r
    ca, cb = codes_of(a), codes_of(b)
    n = min(len(ca), len(cb))
    if len(ca) == len(cb):
        r = F if strict else T
    else:
        r = T if len(ca) < len(cb) else F
    for i in range(n - 1, -1, -1):
        x, y = ca[i], cb[i]
        if isinstance(x, Tok) or isinstance(y, Tok):
            raise Unsupported('ordering float text')
        x = IntVal(x) if isinstance(x, int) else x
        y = IntVal(y) if isinstance(y, int) else y
        r = z3.Or(x < y, z3.And(x == y, r))
    return mkbool(z3.simplify(r))


class ChPos(int):
    """A position in a text with unexpanded pieces, each counted as one."""
    __slots__ = ()


class SymStr(Sym):
    __slots__ = ('_c', '_thunk')

    def __init__(self, ch):
        self._c = tuple(ch)
        self._thunk = None

    @property
    def ch(self):
        if self._thunk is not None:
            t = self._thunk
            s = t()
            self._c = codes_of(s)
            self._thunk = None
        return self._c

    def plain(self):
        """Concrete str if every character is concrete, else None."""
        if all(isinstance(c, int) for c in self.ch):
            return ''.join(map(chr, self.ch))
        return None

    def __len__(self):
        if any(isinstance(c, Tok) for c in self.ch):
            raise Unsupported('length of float text')
        return len(self.ch)

    def __bool__(self):
        return len(self.ch) > 0

    def __iter__(self):
        for c in self.ch:
            yield mkstr((c,))

    def __getitem__(self, i):
        k = next((j for j, c in enumerate(self.ch) if isinstance(c, Tok)),
                 None)
        if k is not None:
            if isinstance(i, slice):
                ok = i.step in (None, 1) and all(
                    isinstance(p, ChPos) or p == d or
                    (isinstance(p, int) and 0 <= p <= k)
                    for p, d in ((i.start, None), (i.stop, None)))
            else:
                ok = 0 <= i < k
            if not ok:
                raise Unsupported('indexing float text')
        if isinstance(i, slice):
            return mkstr(self.ch[i])
        return mkstr((self.ch[i],))

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkstr(self.ch + codes_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return mkstr(codes_of(o) + self.ch)

    def __mul__(self, n):
        return mkstr(self.ch * int(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import py2rt
        return py2rt.format_mod(self, args)

    def __eq__(self, o):
        if not is_str(o):
            return False
        return str_eq(self, o)

    def __ne__(self, o):
        if not is_str(o):
            return True
        r = str_eq(self, o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def __lt__(self, o): return str_lt(self, o)
    def __le__(self, o): return str_lt(self, o, False)
    def __gt__(self, o): return str_lt(o, self)
    def __ge__(self, o): return str_lt(o, self, False)

    def realize(self):
        out = []
        for c in self.ch:
            if isinstance(c, Tok):
                raise Unsupported('realizing float text')
            out.append(chr(c if isinstance(c, int) else core.CTX.realize(c)))
        return ''.join(out)

    def __hash__(self):
        return hash(self.realize())

    def __str__(self):
        p = self.plain()
        if p is None:
            raise Unsupported('native str() of SymStr')
        return p

    def __repr__(self):
        if self._thunk is not None:
            return 'SymStr<lazy>'
        return 'SymStr(%s)' % ','.join(
            chr(c) if isinstance(c, int) else '?' for c in self._c)

    def contains(self, sub):
        n, m = len(self.ch), len(sub)
        if m == 0:
            return True
        parts = []
        for i in range(n - m + 1):
            r = str_eq(mkstr(self.ch[i:i + m]), sub)
            if r is True:
                return True
            if r is not False:
                parts.append(r.e)
        if not parts:
            return False
        return mkbool(z3.Or(*parts) if len(parts) > 1 else parts[0])

    def __contains__(self, sub):
        return bool(self.contains(sub))

    # ---- methods (py2 str/unicode) ----
    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(q, start, end) for q in p)
        s = self if not start and end is None else mkstr(
            self.ch[slice(start, end)])
        cs, cp = codes_of(s), codes_of(p)
        if len(cp) > len(cs):
            return False
        return str_eq(mkstr(cs[:len(cp)]), p)

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(q, start, end) for q in p)
        cs, cp = self.ch[slice(start, end)], codes_of(p)
        if len(cp) > len(cs):
            return False
        return str_eq(mkstr(cs[len(cs) - len(cp):]), p)

    def find(self, sub, start=0, end=None):
        n = len(self.ch)
        start, end, _ = slice(start, end).indices(n)
        m = len(sub)
        for i in range(start, end - m + 1):
            if str_eq(mkstr(self.ch[i:i + m]), sub):
                return ChPos(i) if any(isinstance(c, Tok)
                                       for c in self.ch[:i]) else i
        return -1

    def rfind(self, sub, start=0, end=None):
        n = len(self.ch)
        start, end, _ = slice(start, end).indices(n)
        m = len(sub)
        for i in range(end - m, start - 1, -1):
            if str_eq(mkstr(self.ch[i:i + m]), sub):
                return ChPos(i) if any(isinstance(c, Tok)
                                       for c in self.ch[:i]) else i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub):
        i, k = 0, 0
        while True:
            j = self.find(sub, i)
            if j < 0:
                return k
            k += 1
            i = j + max(len(sub), 1)

    def _stripset(self, chars):
        if chars is None:
            return WS_CODES
        if isinstance(chars, SymStr):
            return None
        return tuple(map(ord, chars))

    def lstrip(self, chars=None):
        ch = self.ch
        i = 0
        while i < len(ch) and self._inset(ch[i], chars):
            i += 1
        return mkstr(ch[i:])

    def _inset(self, c, chars):
        codes = self._stripset(chars)
        if isinstance(c, Tok):
            return False
        if codes is None:
            return any(holds(chars_eq(c, d)) for d in chars.ch)
        return holds(in_codes(c, codes))

    def rstrip(self, chars=None):
        ch = self.ch
        j = len(ch)
        while j > 0 and self._inset(ch[j - 1], chars):
            j -= 1
        return mkstr(ch[:j])

    def strip(self, chars=None):
        r = self.rstrip(chars)
        return r.lstrip(chars) if chars is not None else (
            r.lstrip() if isinstance(r, SymStr) else r.lstrip(WS))

    def _map(self, f):
        return mkstr([f(c) for c in self.ch])

    def lower(self):
        def f(c):
            if isinstance(c, Tok):
                return c
            if isinstance(c, int):
                return ord(chr(c).lower()) if c < 128 else c
            return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
        return self._map(f)

    def upper(self):
        def f(c):
            if isinstance(c, Tok):
                return c
            if isinstance(c, int):
                return ord(chr(c).upper()) if c < 128 else c
            return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)
        return self._map(f)

    def swapcase(self):
        return self._map(lambda c: c if isinstance(c, Tok) else (
            ord(chr(c).swapcase()) if isinstance(c, int) else
            z3.If(z3.And(c >= 65, c <= 90), c + 32,
                  z3.If(z3.And(c >= 97, c <= 122), c - 32, c))))

    def capitalize(self):
        return mkstr(codes_of(mkstr(self.ch[:1]).upper()) +
                     codes_of(mkstr(self.ch[1:]).lower()))

    def title(self):
        out, prev = [], False
        for c in self.ch:
            alpha = holds(in_ranges(c, ((65, 90), (97, 122))))
            s = mkstr((c,))
            out.extend(codes_of((s.lower() if prev else s.upper())
                                if alpha else s))
            prev = alpha
        return mkstr(out)

    def _all(self, ranges):
        if not self.ch:
            return False
        es = [in_ranges(c, ranges) for c in self.ch]
        if any(e is False for e in es):
            return False
        es = [e for e in es if e is not True]
        return mkbool(z3.And(*es)) if es else True

    def isdigit(self): return self._all(((48, 57),))
    isnumeric = isdecimal = isdigit
    def isalpha(self): return self._all(((65, 90), (97, 122)))
    def isalnum(self): return self._all(((48, 57), (65, 90), (97, 122)))
    def isspace(self): return self._all(((9, 13), (32, 32)))

    def isupper(self):
        if any(holds(in_ranges(c, ((97, 122),))) for c in self.ch):
            return False
        return any(holds(in_ranges(c, ((65, 90),))) for c in self.ch)

    def islower(self):
        if any(holds(in_ranges(c, ((65, 90),))) for c in self.ch):
            return False
        return any(holds(in_ranges(c, ((97, 122),))) for c in self.ch)

    def split(self, sep=None, maxsplit=-1):
        ch = self.ch
        out = []
        if sep is None:
            i, n = 0, len(ch)
            while True:
                while i < n and self._inset(ch[i], None):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and self._inset(ch[j - 1], None):
                        j -= 1
                    # py2 keeps trailing blanks of the remainder stripped? no
                    out.append(mkstr(ch[i:]))
                    return out
                j = i
                while j < n and not self._inset(ch[j], None):
                    j += 1
                out.append(mkstr(ch[i:j]))
                i = j
        m = len(sep)
        i = s = 0
        n = len(ch)
        while i <= n - m:
            if (maxsplit < 0 or len(out) < maxsplit) and holds_sb(
                    str_eq(mkstr(ch[i:i + m]), sep)):
                out.append(mkstr(ch[s:i]))
                i += m
                s = i
            else:
                i += 1
        out.append(mkstr(ch[s:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit on blanks')
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        return [join(sep, parts[:k])] + parts[k:]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (mkstr(self.ch[:i]), sep, mkstr(self.ch[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (mkstr(self.ch[:i]), sep, mkstr(self.ch[i + len(sep):]))

    def splitlines(self, keepends=False):
        out, cur, ch, i = [], [], self.ch, 0
        while i < len(ch):
            c = ch[i]
            if holds(in_codes(c, (10, 13))):
                end = [c]
                if (holds(chars_eq(c, 13)) and i + 1 < len(ch) and
                        holds(chars_eq(ch[i + 1], 10))):
                    end.append(ch[i + 1])
                    i += 1
                out.append(mkstr(cur + (end if keepends else [])))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mkstr(cur))
        return out

    def replace(self, old, new, count=-1):
        ch, out, i, m, k = self.ch, [], 0, len(old), 0
        cn = codes_of(new)
        if m == 0:
            raise Unsupported('replace of empty text')
        while i < len(ch):
            if (i + m <= len(ch) and (count < 0 or k < count) and
                    holds_sb(str_eq(mkstr(ch[i:i + m]), old))):
                out.extend(cn)
                i += m
                k += 1
            else:
                out.append(ch[i])
                i += 1
        return mkstr(out)

    def join(self, items):
        return join(self, items)

    def zfill(self, w):
        n = len(self.ch)
        if n >= w:
            return self
        if n and holds(in_codes(self.ch[0], (43, 45))):
            return mkstr(self.ch[:1] + (48,) * (w - n) + self.ch[1:])
        return mkstr((48,) * (w - n) + self.ch)

    def ljust(self, w, fill=' '):
        return mkstr(self.ch + (ord(fill),) * max(0, w - len(self)))

    def rjust(self, w, fill=' '):
        return mkstr((ord(fill),) * max(0, w - len(self)) + self.ch)

    def center(self, w, fill=' '):
        pad = max(0, w - len(self))
        left = pad // 2 + (pad & w & 1)
        return mkstr((ord(fill),) * left + self.ch + (ord(fill),) *
                     (pad - left))

    def encode(self, enc='ascii', errors='strict'):
        return self

    def decode(self, enc='ascii', errors='strict'):
        return self

    def translate(self, table, deletechars=None):
        raise Unsupported('translate')

    def expandtabs(self, n=8):
        raise Unsupported('expandtabs')

    def format(self, *a, **k):
        raise Unsupported('format')


def holds_sb(r):
    return r if isinstance(r, bool) else bool(r)


def lazy_str(thunk):
    s = SymStr(())
    s._thunk = thunk
    return s


def join(sep, items):
    items = list(items)
    if isinstance(sep, str) and all(isinstance(x, str) for x in items):
        return sep.join(items)
    for x in items:
        if not is_str(x):
            raise TypeError('sequence item: expected string, %s found' %
                            type(x).__name__)

    def build():
        out = []
        cs = codes_of(sep)
        for i, x in enumerate(items):
            if i:
                out.extend(cs)
            out.extend(codes_of(x))
        return mkstr(out)
    if any(isinstance(x, SymStr) and x._thunk is not None for x in items):
        return lazy_str(build)
    return build()


# ----------------------------------------------------------- conversions
def digit_val(c, base):
    """(cond, value) of char code c as a digit of the base."""
    if base <= 10:
        return in_ranges(c, ((48, 47 + base),)), (
            c - 48)
    ok = in_ranges(c, ((48, 57), (65, 54 + base), (97, 86 + base)))
    if isinstance(c, int):
        v = (c - 48 if c <= 57 else c - 55 if c <= 90 else c - 87)
    else:
        v = z3.If(c <= 57, c - 48, z3.If(c <= 90, c - 55, c - 87))
    return ok, v


def int_of_str(s, base=10):
    """Python 2 int(text)."""
    bad = ValueError('invalid literal for int() with base %d' % base)
    t = s.strip()
    if isinstance(t, str):
        if '_' in t:
            raise bad
        return int(t, base)
    ch = list(t.ch)
    if any(isinstance(c, Tok) for c in ch):
        raise bad
    neg = False
    if ch and holds(in_codes(ch[0], (43, 45))):
        neg = holds(chars_eq(ch[0], 45))
        ch = ch[1:]
    if not ch:
        raise bad
    conds, v = [], IntVal(0)
    for c in ch:
        ok, d = digit_val(c, base)
        if ok is False:
            raise bad
        if ok is not True:
            conds.append(ok)
        v = v * base + d
    if conds and not core.CTX.branch(z3.And(*conds)):
        # base prefixes (0x..) only matter for base 0/16
        if base == 16:
            raise Unsupported('int(text, 16) with non-hex text')
        raise bad
    v = z3.simplify(v)
    return mkint(-v if neg else v)


def float_of_str(s):
    """Python 2 float(text) under Jython."""
    bad = ValueError('could not convert string to float')
    t = s.strip()
    if isinstance(t, str):
        return float_of_plain(t)
    ch = list(t.ch)
    if len(ch) == 1 and isinstance(ch[0], Tok) and ch[0].fmt in 'sr':
        return ch[0].num
    if len(ch) == 1 and isinstance(ch[0], Tok) and ch[0].fmt[0] == 'f':
        return rounded_num(ch[0].num, ch[0].fmt[1:])
    if any(isinstance(c, Tok) for c in ch):
        raise Unsupported('float text mixed with characters')
    neg = False
    if ch and holds(in_codes(ch[0], (43, 45))):
        neg = holds(chars_eq(ch[0], 45))
        ch = ch[1:]
    i, v, nd = 0, IntVal(0), 0
    while i < len(ch) and holds(in_ranges(ch[i], ((48, 57),))):
        v = v * 10 + (ch[i] - 48)
        i += 1
        nd += 1
    scale = 0
    if i < len(ch) and holds(chars_eq(ch[i], 46)):
        i += 1
        while i < len(ch) and holds(in_ranges(ch[i], ((48, 57),))):
            v = v * 10 + (ch[i] - 48)
            i += 1
            nd += 1
            scale += 1
    if i == len(ch):
        if nd == 0:
            raise bad
        v = z3.simplify(v)
        r = z3.ToReal(v) / (10 ** scale)
        return SymReal(z3.simplify(-r if neg else r))
    # rare forms: make the rest concrete
    rest = mkstr(ch[i:])
    rest = rest if isinstance(rest, str) else rest.realize()
    if nd == 0:
        low = rest.lower() if i == 0 else ''
        if low in ('inf', 'infinity', 'nan'):
            return float(('-' if neg else '') + low)
        raise bad
    if rest[0] in 'eE':
        try:
            k = int(rest[1:])
            if '_' in rest or rest[1:] != rest[1:].strip():
                raise ValueError
        except ValueError:
            raise bad
        v = z3.simplify(z3.ToReal(v))
        k -= scale
        r = v * (10 ** k) if k >= 0 else v / (10 ** -k)
        return SymReal(z3.simplify(-r if neg else r))
    raise bad


def denominator(e):
    """A number d such that e * d is always whole, or None."""
    if z3.is_rational_value(e):
        return e.denominator_as_long()
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return 1
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        d = 1
        for c in e.children():
            n = denominator(c)
            if n is None:
                return None
            d = d * n // gcd(d, n)
        return d
    if k == z3.Z3_OP_MUL:
        d = 1
        for c in e.children():
            n = denominator(c)
            if n is None:
                return None
            d *= n
        return d
    if k == z3.Z3_OP_DIV:
        a, b = e.children()
        n = denominator(a)
        if n is None or not z3.is_rational_value(b):
            return None
        b = b.as_fraction()
        return None if not b else n * abs(b.numerator)
    if k == z3.Z3_OP_ITE:
        a, b = denominator(e.arg(1)), denominator(e.arg(2))
        return None if a is None or b is None else a * b // gcd(a, b)
    return None


def rounded_num(x, prec):
    """The number read back from '%.<prec>f' % x."""
    p = 10 ** (int(prec[1:] or 0) if prec else 6)
    d = denominator(x.e)
    if d is not None and p % d == 0:
        return x
    k = core.CTX.fresh_int('rnd')
    e = x.e * p - z3.ToReal(k)
    core.CTX.assume(z3.And(2 * e <= 1, 2 * e >= -1))
    return SymReal(z3.ToReal(k) / p)


def float_of_plain(t):
    if '_' in t:
        raise ValueError('could not convert string to float')
    return float(t)


def digits_of_int(x, minwidth=1):
    """Codes of the decimal text of SymInt x (forks on sign and length)."""
    e = x.e
    neg = core.CTX.branch(e < 0)
    if neg:
        e = -e
    n = 1
    while not core.CTX.branch(e < 10 ** n):
        n += 1
        if n > 18:
            raise Unsupported('integer too long to print')
    ctx = core.CTX
    e = z3.simplify(e)
    key = (e.get_id(), n)
    got = ctx.digitcache.get(key)
    if got is not None:
        return neg, list(got[1])
    if z3.is_int_value(e):
        out = list(map(ord, str(e.as_long())))
    elif n == 1:
        out = [known_digit(e, 48)]
    else:
        ds = [ctx.fresh_int('digit') for _ in range(n)]
        total = 0
        for d in ds:
            total = total * 10 + d
        ctx.assume(z3.And(
            *([e == z3.simplify(total), ds[0] >= 1, ds[0] <= 9] +
              [z3.And(d >= 0, d <= 9) for d in ds[1:]])))
        out = [known_digit(d, 48 if i else 49) for i, d in enumerate(ds)]
    ctx.digitcache[key] = (e, list(out))
    return neg, out


def known_digit(d, lo):
    """Code of the digit d (a z3 Int known to be lo-48..9)."""
    c = z3.simplify(d + 48)
    if z3.is_int_value(c):
        return c.as_long()
    core.CTX.keep.append(c)
    core.CTX.digits[c.get_id()] = (lo, c)
    return c


# ------------------------------------------------------- texts of real days
class DateText(SymStr):
    """YYYYMMDD of a symbolic day: compared by day number, expanded into
    characters only when something looks at them."""
    __slots__ = ('d',)

    def __init__(self, d, thunk):
        SymStr.__init__(self, ())
        self._thunk = thunk
        self.d = d

    def __len__(self):
        return 8

    def __bool__(self):
        return True

    def strip(self, chars=None):
        return self if chars is None else SymStr.strip(self, chars)

    def lstrip(self, chars=None):
        return self if chars is None else SymStr.lstrip(self, chars)

    def rstrip(self, chars=None):
        return self if chars is None else SymStr.rstrip(self, chars)

    def lower(self): return self
    def upper(self): return self
    def isdigit(self): return True
    isnumeric = isdecimal = isdigit

    def plain(self):
        return None

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1):
            a, b, _ = i.indices(8)
            if (a, b) == (0, 8):
                return self
            f = {(0, 4): 'y', (4, 6): 'm', (6, 8): 'd'}.get((a, b))
            if f:
                return PartText(self, f, a, b)
        return SymStr.__getitem__(self, i)

    def __repr__(self):
        return 'DateText'


class PartText(SymStr):
    """Year, month or day characters of a DateText."""
    __slots__ = ('src', 'f', 'w')

    def __init__(self, src, f, a, b):
        SymStr.__init__(self, ())
        self._thunk = lambda: mkstr(src.ch[a:b])
        self.src, self.f, self.w = src, f, b - a

    def __len__(self):
        return self.w

    def __bool__(self):
        return True

    def isdigit(self): return True


def _ceil_ord(s):
    """Ordinal of the first real day whose text is >= the 8-digit s."""
    import datetime
    y, m, d = int(s[:4]), int(s[4:6]), int(s[6:])
    if y < 1:
        return 1
    if m < 1:
        m, d = 1, 1
    if m > 12:
        y, m, d = y + 1, 1, 1
    d = max(d, 1)
    while True:
        if y > 9999:
            return 3652060
        try:
            return datetime.date(y, m, d).toordinal()
        except ValueError:
            d, m = 1, m + 1
            if m > 12:
                y, m = y + 1, 1


def date_cmp(a, b, op):
    """Comparison of texts at least one of which is a DateText; None when
    the characters are needed."""
    da, db = isinstance(a, DateText), isinstance(b, DateText)
    if da and db:
        x, y = a.d.toordinal(), b.d.toordinal()
        return x == y if op == 'eq' else x < y if op == 'lt' else x <= y
    if isinstance(a, SymStr):
        p = a.plain() if not da else None
        if p is not None:
            a = p
    if isinstance(b, SymStr):
        p = b.plain() if not db else None
        if p is not None:
            b = p
    s, d = (b, a) if da else (a, b)
    if not isinstance(s, str):
        if op == 'eq' and len(s) != 8:
            return False
        return None
    x = d.d.toordinal()
    if len(s) != 8 or not all(c in '0123456789' for c in s):
        if op == 'eq':
            return False
        if s == '' or s[0] < '0':
            return not da
        if s[0] > '9':
            return da
        return None
    c = _ceil_ord(s)
    import datetime
    real = c <= 3652059 and datetime.date.fromordinal(c).strftime(
        '%Y%m%d').zfill(8) == s
    if op == 'eq':
        return (x == c) if real else False
    if da:
        if op == 'lt' or not real:
            return x < c
        return x <= c
    # s op d
    if op == 'le' or not real:
        return x >= c
    return x > c
