"""Python 2 run-time semantics for the rewritten code (operators, builtins,
containers), accepting symbolic operands."""
import builtins as B
import functools
import math
import sys
import types
import z3
from . import core
from .core import Unsupported
from .symtypes import (DateText, PartText, Sym, SymBool, SymInt, SymReal, SymStr, SymNum, Tok,
                       is_sym, mkbool, mkint, mkstr, bool_expr, num_expr,
                       to_real, is_str, str_eq, str_lt, codes_of, join,
                       lazy_str, sround, int_of_str, float_of_str,
                       digits_of_int, holds, in_ranges, is_inf)

_basic = (int, float, str, bool, type(None))
any_exception = (Exception, SystemExit, KeyboardInterrupt)


# ------------------------------------------------------------ comparisons
def z_and(parts):
    out = []
    for p in parts:
        if p is True:
            continue
        if p is False:
            return False
        out.append(p.e if isinstance(p, SymBool) else z3.BoolVal(bool(p)))
    if not out:
        return True
    return mkbool(z3.And(*out) if len(out) > 1 else out[0])


def z_or(parts):
    out = []
    for p in parts:
        if p is False:
            continue
        if p is True:
            return True
        out.append(p.e if isinstance(p, SymBool) else z3.BoolVal(bool(p)))
    if not out:
        return False
    return mkbool(z3.Or(*out) if len(out) > 1 else out[0])


def z_not(p):
    if isinstance(p, SymBool):
        return mkbool(z3.Not(p.e))
    return not p


def _eq(a, b):
    ta, tb = type(a), type(b)
    if ta is tb and ta in _basic:
        return a == b
    if isinstance(a, Sym) or isinstance(b, Sym):
        if is_str(a):
            return str_eq(a, b) if is_str(b) else (
                False if isinstance(b, (Sym,) + _basic) else _obj_eq(a, b))
        if is_str(b):
            return False if isinstance(a, (Sym,) + _basic) else _obj_eq(a, b)
        if num_expr(a) is not None or is_inf(a):
            if num_expr(b) is not None or is_inf(b):
                return a == b
        return _obj_eq(a, b)
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        if a is b:
            return True
        return z_and(_eq_elem(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and z_and(
            _eq_elem(x, y) for x, y in zip(a, b))
    return _obj_eq(a, b)


def _eq_elem(x, y):
    if x is y and not (isinstance(x, float) and x != x):
        return True
    return _eq(x, y)


def _obj_eq(a, b):
    r = a == b
    return r


def _ne(a, b):
    ta, tb = type(a), type(b)
    if ta is tb and ta in _basic:
        return a != b
    if isinstance(a, Sym) or isinstance(b, Sym):
        if (isinstance(a, (Sym,) + _basic) and isinstance(b, (Sym,) + _basic)):
            return z_not(_eq(a, b))
        return a != b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return z_not(_eq(a, b))
    return a != b


def _type_rank(x):
    """Python 2 ordering of values of different types."""
    if x is None:
        return (0, '')
    if isinstance(x, (int, float, SymInt, SymReal, SymBool)):
        return (1, '')
    if is_str(x):
        return (2, 'str')
    return (2, type(x).__name__)


def _obj_number(x):
    """A stable, arbitrary order for objects that define none."""
    ctx = core.CTX
    tab = ctx.__dict__.setdefault('objnum', {})
    got = tab.get(id(x))
    if got is None or got[1] is not x:
        got = tab[id(x)] = (len(tab), x)
    return got[0]


def _has_rich(x, name):
    f = getattr(type(x), name, None)
    return f is not None and f is not getattr(object, name)


def _order(a, b, op):
    """op in < <= > >=; Python 2 semantics, SymBool when symbolic."""
    ta, tb = type(a), type(b)
    if ta is tb and ta in (int, float, str, bool):
        if op == '<': return a < b
        if op == '<=': return a <= b
        if op == '>': return a > b
        return a >= b
    if op == '>':
        return _order_lt(b, a, True) if not _custom(a, b) else a > b
    if op == '>=':
        return _order_lt(b, a, False) if not _custom(a, b) else a >= b
    if op == '<':
        return _order_lt(a, b, True) if not _custom(a, b) else a < b
    return _order_lt(a, b, False) if not _custom(a, b) else a <= b


def _custom(a, b):
    """Do the operands define their own ordering?"""
    for x in (a, b):
        if isinstance(x, (Sym, list, tuple, dict) + _basic):
            continue
        if _has_rich(x, '__lt__') or _has_rich(x, '__gt__'):
            return True
    return False


def _order_lt(a, b, strict):
    if num_like(a) and num_like(b):
        return a < b if strict else a <= b
    if is_str(a) and is_str(b):
        return str_lt(a, b, strict)
    if a is None and b is None:
        return not strict
    if (isinstance(a, list) and isinstance(b, list)) or (
            isinstance(a, tuple) and isinstance(b, tuple)):
        n = min(len(a), len(b))
        if len(a) == len(b):
            r = not strict
        else:
            r = len(a) < len(b)
        # first difference decides
        conds = []
        for x, y in zip(a, b):
            e = _eq_elem(x, y)
            if e is True:
                continue
            conds.append((e, x, y))
            if e is False:
                break
        for e, x, y in reversed(conds):
            lt = _order(x, y, '<')
            if e is False:
                r = lt
            else:
                r = z_or([lt, z_and([e, r])]) if not (
                    isinstance(e, bool) and e) else r
        return r
    ra, rb = _type_rank(a), _type_rank(b)
    if ra != rb:
        return ra < rb
    if a is b:
        return not strict
    na, nb = _obj_number(a), _obj_number(b)
    return na < nb if strict else na <= nb


def num_like(x):
    return isinstance(x, (int, float, SymNum, SymBool))


def _lt(a, b): return _order(a, b, '<')
def _le(a, b): return _order(a, b, '<=')
def _gt(a, b): return _order(a, b, '>')
def _ge(a, b): return _order(a, b, '>=')


def _is(a, b):
    if isinstance(a, SymBool):
        return a if b else z_not(a)
    return a is b


def _isnot(a, b):
    return z_not(_is(a, b))


def _cmp(a, b):
    if type(a) is type(b) and type(a) in (int, float, str, bool):
        return (a > b) - (a < b)
    c = getattr(type(a), '__cmp__', None)
    if c is not None:
        r = c(a, b)
        if r is not NotImplemented:
            return r
    c = getattr(type(b), '__cmp__', None)
    if c is not None:
        r = c(b, a)
        if r is not NotImplemented:
            return -r
    if _eq(a, b):
        return 0
    return -1 if _lt(a, b) else 1


def _in(x, c):
    if isinstance(c, dict):
        return c._has(x) if isinstance(c, PDict) else (
            PDict(c)._has(x) if is_sym(x) else x in c)
    if isinstance(c, PSet):
        return c._d._has(x)
    if isinstance(c, SymStr) or (isinstance(c, str) and is_sym(x)):
        if not is_str(x):
            raise TypeError("'in <string>' requires string as left operand")
        if isinstance(c, str):
            c = SymStr(codes_of(c))
        return c.contains(x)
    if isinstance(c, str):
        if not isinstance(x, str):
            raise TypeError("'in <string>' requires string as left operand")
        return x in c
    if isinstance(c, (list, tuple)):
        return z_or(_eq_elem(x, y) for y in c)
    if hasattr(type(c), '__contains__'):
        r = type(c).__contains__(c, x)
        return r
    for y in c:
        if _eq_elem(x, y):
            return True
    return False


def _notin(x, c):
    return z_not(_in(x, c))


def _getitem(o, i):
    """o[i]; a symbolic index into a list of numbers does not fork."""
    if isinstance(i, SymInt) and type(o) in (list, tuple) and o:
        if all(isinstance(x, (bool, SymBool)) for x in o):
            b = True
        elif all(isinstance(x, (int, float, SymNum)) and
                 num_expr(x) is not None and type(x) is not bool for x in o):
            b = False
        else:
            return o[i]
        e = i.e
        if core.CTX.branch(z3.simplify(z3.And(e >= 0, e < len(o)))):
            if b:
                r = bool_expr(o[-1])
                for k in range(len(o) - 2, -1, -1):
                    r = z3.If(e == k, bool_expr(o[k]), r)
                return mkbool(z3.simplify(r))
            es = [num_expr(x) for x in o]
            real = any(k == 'r' for k, _ in es)
            es = [to_real(k, x) if real else x for k, x in es]
            r = es[-1]
            for k in range(len(o) - 2, -1, -1):
                r = z3.If(e == k, es[k], r)
            r = z3.simplify(r)
            return SymReal(r) if real else mkint(r)
    return o[i]


# --------------------------------------------------------------- arithmetic
def _div(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    return a / b


def _truediv(a, b):
    if isinstance(a, SymInt) and not isinstance(b, (float, SymReal)):
        a = SymReal(z3.ToReal(a.e))
    elif isinstance(b, SymInt) and isinstance(a, int):
        a = float(a)
    return a / b


def _mod(a, b):
    if is_str(a):
        return format_mod(a, b)
    return a % b


# ---------------------------------------------------------------- formatting
def deep_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(deep_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(deep_sym(y, depth - 1) for y in x.values()) or (
            isinstance(x, PDict) and x.nsym)
    return False


def py2_float_str(x):
    if x != x:
        return 'nan'
    if is_inf(x):
        return 'inf' if x > 0 else '-inf'
    s = '%.12g' % x
    if '.' not in s and 'e' not in s:
        s += '.0'
    return s


def py2_str(x):
    """str(x) of Python 2: a str or SymStr (possibly lazy)."""
    if isinstance(x, str):
        return x
    if isinstance(x, SymStr):
        return x
    if x is None or isinstance(x, (bool, int)):
        return B.str(x)
    if isinstance(x, float):
        return py2_float_str(x)
    if isinstance(x, SymInt):
        return lazy_str(lambda: int_text(x))
    if isinstance(x, SymBool):
        return 'True' if x else 'False'
    if isinstance(x, SymReal):
        return SymStr((Tok(x),))
    if isinstance(x, (list, tuple, dict, PSet)):
        return py2_repr(x)
    if isinstance(x, BaseException):
        f = type(x).__str__
        if isinstance(f, types.FunctionType):
            return f(x)
        if isinstance(x, KeyError) and len(x.args) == 1:
            return py2_repr(x.args[0])
        if isinstance(x, OSError):
            return B.str(x)
        if len(x.args) == 0:
            return ''
        if len(x.args) == 1:
            return py2_str(x.args[0])
        return py2_repr(x.args)
    if isinstance(x, type):
        return "<type '%s'>" % x.__name__
    f = getattr(type(x), '__unicode__', None)
    g = type(x).__str__
    if g is object.__str__:
        return py2_repr(x)
    if isinstance(g, types.FunctionType):
        return g(x)
    return B.str(x)


def int_text(x):
    neg, ds = digits_of_int(x)
    return mkstr(([45] if neg else []) + ds)


def py2_repr(x):
    if isinstance(x, SymStr):
        return lazy_str(lambda: repr(x.realize()))
    if isinstance(x, (SymInt, SymBool, SymReal)):
        return py2_str(x)
    if isinstance(x, (list, tuple)):
        if isinstance(x, tuple) and len(x) == 1:
            parts = ['(', py2_repr(x[0]), ',)']
        else:
            parts = ['[' if isinstance(x, list) else '(']
            for i, y in enumerate(x):
                if i:
                    parts.append(', ')
                parts.append(py2_repr(y))
            parts.append(']' if isinstance(x, list) else ')')
        return join('', parts)
    if isinstance(x, dict):
        parts = ['{']
        for i, (k, v) in enumerate(B.list(x.items())):
            if i:
                parts.append(', ')
            parts += [py2_repr(k), ': ', py2_repr(v)]
        parts.append('}')
        return join('', parts)
    if isinstance(x, PSet):
        return join('', ['set(', py2_repr(B.list(x)), ')'])
    if isinstance(x, str):
        return ascii_repr(x)
    f = type(x).__repr__
    if isinstance(f, types.FunctionType):
        return f(x)
    if f is object.__repr__:
        return '<%s object>' % type(x).__name__
    return B.repr(x)


def ascii_repr(s):
    return B.repr(s)


def format_mod(fmt, args):
    if isinstance(fmt, SymStr):
        p = fmt.plain()
        if p is None:
            raise Unsupported('symbolic format text')
        fmt = p
    pieces = []
    i, n = 0, len(fmt)
    argi = 0
    single = not isinstance(args, tuple)
    is_map = isinstance(args, dict) or (
        single and not is_str(args) and hasattr(args, '__getitem__'))
    used_map = False

    def nextarg():
        nonlocal argi
        if single:
            if argi:
                raise TypeError('not enough arguments for format string')
            argi += 1
            return args
        if argi >= len(args):
            raise TypeError('not enough arguments for format string')
        argi += 1
        return args[argi - 1]

    buf = []
    while i < n:
        c = fmt[i]
        if c != '%':
            buf.append(c)
            i += 1
            continue
        i += 1
        if i >= n:
            raise ValueError('incomplete format')
        if fmt[i] == '%':
            buf.append('%')
            i += 1
            continue
        key = None
        if fmt[i] == '(':
            depth, j = 1, i + 1
            while depth:
                if j >= n:
                    raise ValueError('incomplete format key')
                depth += (fmt[j] == '(') - (fmt[j] == ')')
                j += 1
            key = fmt[i + 1:j - 1]
            i = j
            used_map = True
        flags = ''
        while i < n and fmt[i] in '#0- +':
            flags += fmt[i]
            i += 1
        width = ''
        if i < n and fmt[i] == '*':
            width = B.str(B.int(nextarg()))
            i += 1
        else:
            while i < n and fmt[i].isdigit():
                width += fmt[i]
                i += 1
        prec = ''
        if i < n and fmt[i] == '.':
            i += 1
            if i < n and fmt[i] == '*':
                prec = '.' + B.str(B.int(nextarg()))
                i += 1
            else:
                prec = '.'
                while i < n and fmt[i].isdigit():
                    prec += fmt[i]
                    i += 1
        while i < n and fmt[i] in 'hlL':
            i += 1
        if i >= n:
            raise ValueError('incomplete format')
        conv = fmt[i]
        i += 1
        if key is not None:
            if not is_map:
                raise TypeError('format requires a mapping')
            arg = args[key]
        else:
            arg = nextarg()
        if buf:
            pieces.append(''.join(buf))
            buf = []
        pieces.append(_format_one(conv, flags, width, prec, arg))
    if buf:
        pieces.append(''.join(buf))
    if not used_map and not (single and is_map and not argi) and (
            (single and not argi) or (not single and argi < len(args))):
        if not (single and isinstance(args, dict)):
            raise TypeError(
                'not all arguments converted during string formatting')
    return join('', pieces)


def _pad(text, flags, width):
    if not width:
        return text
    w = B.int(width)
    if isinstance(text, str):
        return text.ljust(w) if '-' in flags else text.rjust(w)
    return lazy_str(lambda: text.ljust(w) if '-' in flags else text.rjust(w))


def _format_one(conv, flags, width, prec, arg):
    if conv in 'sr':
        t = py2_str(arg) if conv == 's' else py2_repr(arg)
        if prec:
            t = t[:B.int(prec[1:] or 0)]
        return _pad(t, flags, width)
    if conv in 'diu':
        if is_str(arg) or arg is None:
            raise TypeError('%d format: a number is required')
        if isinstance(arg, SymReal):
            arg = arg.trunc()
        if isinstance(arg, SymBool):
            arg = arg._i()
        if isinstance(arg, SymInt):
            v = arg

            def digits():
                neg, ds = digits_of_int(v)
                p = B.int(prec[1:]) if prec else 0
                ds = [48] * (p - len(ds)) + ds
                sign = [45] if neg else ([43] if '+' in flags else
                                         [32] if ' ' in flags else [])
                w = B.int(width or 0)
                if '0' in flags and '-' not in flags and not prec:
                    ds = [48] * (w - len(ds) - len(sign)) + ds
                t = mkstr(sign + ds)
                if len(t) < w:
                    t = t.ljust(w) if '-' in flags else t.rjust(w)
                return t
            return lazy_str(digits)
        if not isinstance(arg, (int, float)):
            raise TypeError('%d format: a number is required')
        return ('%' + flags + width + prec + 'd') % arg
    if conv in 'xXoc':
        if is_sym(arg):
            if isinstance(arg, SymStr) and conv == 'c':
                return arg
            arg = arg.__index__()
        return ('%' + flags + width + prec + conv) % arg
    if conv in 'eEfFgG':
        if is_str(arg) or arg is None:
            raise TypeError('float argument required')
        if isinstance(arg, Sym):
            if isinstance(arg, SymBool):
                arg = arg._i()
            if isinstance(arg, SymInt):
                arg = SymReal(z3.ToReal(arg.e))
            if not width or width == '0':
                return SymStr((Tok(arg, conv + prec),))
            return SymStr((Tok(arg, flags + width + prec + conv),))
        return ('%' + flags + width + prec + conv) % arg
    raise ValueError('unsupported format character %r' % conv)


# ------------------------------------------------------------ dict and set
class _SymKey(object):
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


def norm_key(k):
    """Concrete form of a key when it has one."""
    if isinstance(k, SymStr):
        p = k.plain()
        return k if p is None else p
    if isinstance(k, SymInt):
        e = z3.simplify(k.e)
        return e.as_long() if z3.is_int_value(e) else k
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, tuple) and any(deep_sym(y) for y in k):
        return tuple(norm_key(y) for y in k)
    return k


def key_symbolic(k):
    if isinstance(k, Sym):
        return True
    if isinstance(k, _basic):
        return False
    if isinstance(k, tuple):
        return any(key_symbolic(y) for y in k)
    if isinstance(k, (list, dict, PSet)):
        raise TypeError('unhashable type: %r' % type(k).__name__)
    ks = getattr(type(k), '_key_symbolic', None)
    if ks is not None:
        return ks(k)
    h = type(k).__hash__
    return isinstance(h, types.FunctionType) and not isinstance(k, PFrozenSet)


class PDict(dict):
    """dict accepting symbolic keys, compared by equality."""

    def __init__(self, *a, **kw):
        dict.__init__(self)
        self.nsym = 0
        if a:
            self.update(a[0])
        if kw:
            self.update(kw)

    # -- lookup
    def _unkey(self, k):
        return k.k if type(k) is _SymKey else k

    def _find(self, k):
        """Native key equal to k on this path, or None wrapped."""
        k = norm_key(k)
        if not key_symbolic(k):
            if dict.__contains__(self, k):
                return (k,)
            if not self.nsym:
                return None
            for e in B.list(dict.keys(self)):
                if type(e) is _SymKey and _eq(e.k, k):
                    return (e,)
            return None
        cands = []
        for e in B.list(dict.keys(self)):
            r = _eq(self._unkey(e), k)
            if r is True:
                return (e,)
            if r is not False:
                cands.append((e, r))
        for e, r in cands:
            if r:
                return (e,)
        return None

    def _has(self, k):
        k = norm_key(k)
        if not key_symbolic(k):
            if dict.__contains__(self, k):
                return True
            if not self.nsym:
                return False
            return z_or(_eq(e.k, k) for e in B.list(dict.keys(self))
                        if type(e) is _SymKey)
        return z_or(_eq(self._unkey(e), k) for e in B.list(dict.keys(self)))

    def __contains__(self, k):
        return bool(self._has(k))

    has_key = __contains__

    def __getitem__(self, k):
        f = self._find(k)
        if f is None:
            m = getattr(type(self), '__missing__', None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return dict.__getitem__(self, f[0])

    def get(self, k, d=None):
        f = self._find(k)
        return d if f is None else dict.__getitem__(self, f[0])

    def __setitem__(self, k, v):
        f = self._find(k)
        if f is not None:
            dict.__setitem__(self, f[0], v)
            return
        k = norm_key(k)
        if key_symbolic(k):
            self.nsym += 1
            dict.__setitem__(self, _SymKey(k), v)
        else:
            dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k)
        if type(f[0]) is _SymKey:
            self.nsym -= 1
        dict.__delitem__(self, f[0])

    def setdefault(self, k, d=None):
        f = self._find(k)
        if f is not None:
            return dict.__getitem__(self, f[0])
        self[k] = d
        return d

    def pop(self, k, *d):
        f = self._find(k)
        if f is None:
            if d:
                return d[0]
            raise KeyError(k)
        if type(f[0]) is _SymKey:
            self.nsym -= 1
        return dict.pop(self, f[0])

    def popitem(self):
        k, v = dict.popitem(self)
        if type(k) is _SymKey:
            self.nsym -= 1
        return self._unkey(k), v

    def clear(self):
        dict.clear(self)
        self.nsym = 0

    # -- iteration
    def __iter__(self):
        if not self.nsym:
            return dict.__iter__(self)
        return (self._unkey(k) for k in dict.__iter__(self))

    def keys(self):
        return B.list(self.__iter__())

    def values(self):
        return B.list(dict.values(self))

    def items(self):
        return [(self._unkey(k), v) for k, v in dict.items(self)]

    def iterkeys(self):
        return self.__iter__()

    def itervalues(self):
        return iter(dict.values(self))

    def iteritems(self):
        for k, v in dict.items(self):
            yield self._unkey(k), v

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if isinstance(o, PDict):
                for k, v in o.items():
                    self[k] = v
            elif hasattr(o, 'keys'):
                for k in B.list(o.keys()):
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        r = PDict()
        dict.update(r, self)
        r.nsym = self.nsym
        return r

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        parts = []
        for k, v in self.items():
            f = o._find(k) if isinstance(o, PDict) else (
                (k,) if k in o else None)
            if f is None:
                return False
            parts.append(_eq_elem(v, dict.__getitem__(o, f[0])))
        return z_and(parts)

    def __ne__(self, o):
        return z_not(self.__eq__(o))

    __hash__ = None

    @staticmethod
    def fromkeys(keys, v=None):
        r = PDict()
        for k in keys:
            r[k] = v
        return r

    def __repr__(self):
        return 'PDict(%r)' % (self.items(),)

    def __deepcopy__(self, memo):
        import copy
        r = type(self).__new__(type(self))
        PDict.__init__(r)
        if hasattr(self, 'default_factory'):
            r.default_factory = self.default_factory
        for k, v in self.items():
            r[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return r


class PDefaultDict(PDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        PDict.__init__(self, *a, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        r = PDefaultDict(self.default_factory)
        r.update(self)
        return r


class POrderedDict(PDict):
    pass


class PSet(object):
    def __init__(self, it=()):
        self._d = PDict()
        for x in it:
            self._d[x] = None

    def add(self, x): self._d[x] = None
    def discard(self, x): self._d.pop(x, None)

    def remove(self, x):
        if x not in self._d:
            raise KeyError(x)
        del self._d[x]

    def pop(self):
        for x in self._d:
            del self._d[x]
            return x
        raise KeyError('pop from an empty set')

    def clear(self): self._d.clear()
    def __len__(self): return len(self._d)
    def __iter__(self): return iter(self._d.keys())
    def __contains__(self, x): return x in self._d

    def copy(self):
        r = type(self)()
        r._d = self._d.copy()
        return r

    def update(self, *its):
        for it in its:
            for x in it:
                self._d[x] = None

    def union(self, *its):
        r = self.copy()
        for it in its:
            for x in it:
                r._d[x] = None
        return r

    def intersection(self, *its):
        r = self
        for it in its:
            it = _as_set(it)
            r = type(self)(x for x in r if x in it._d)
        return r if its else self.copy()

    def difference(self, *its):
        r = self
        for it in its:
            it = _as_set(it)
            r = type(self)(x for x in r if x not in it._d)
        return r if its else self.copy()

    def symmetric_difference(self, it):
        it = _as_set(it)
        return self.difference(it).union(it.difference(self))

    def intersection_update(self, *its): self._d = self.intersection(*its)._d
    def difference_update(self, *its): self._d = self.difference(*its)._d

    def symmetric_difference_update(self, it):
        self._d = self.symmetric_difference(it)._d

    def issubset(self, o):
        o = _as_set(o)
        return all(x in o._d for x in self)

    def issuperset(self, o): return _as_set(o).issubset(self)
    def isdisjoint(self, o): return len(self.intersection(o)) == 0
    def __or__(self, o): return self.union(_need_set(o))
    def __and__(self, o): return self.intersection(_need_set(o))
    def __sub__(self, o): return self.difference(_need_set(o))
    def __xor__(self, o): return self.symmetric_difference(_need_set(o))
    def __ior__(self, o):
        self.update(_need_set(o))
        return self

    def __iand__(self, o):
        self.intersection_update(_need_set(o))
        return self

    def __isub__(self, o):
        self.difference_update(_need_set(o))
        return self

    def __eq__(self, o):
        if not isinstance(o, PSet) or len(self) != len(o):
            return False
        return self.issubset(o)

    def __ne__(self, o): return not self == o
    def __le__(self, o): return self.issubset(_need_set(o))
    def __lt__(self, o): return len(self) < len(o) and self.issubset(o)
    def __ge__(self, o): return self.issuperset(_need_set(o))
    def __gt__(self, o): return len(self) > len(o) and self.issuperset(o)
    __hash__ = None
    def __repr__(self): return 'set(%r)' % (B.list(self),)


class PFrozenSet(PSet):
    def __hash__(self):
        return hash(frozenset(self))


def _as_set(x):
    return x if isinstance(x, PSet) else PSet(x)


def _need_set(x):
    if isinstance(x, PSet):
        return x
    if isinstance(x, (set, frozenset)):
        return PSet(x)
    raise TypeError('unsupported operand type(s) for set operation')


def _mkdict(pairs):
    d = PDict()
    for k, v in pairs:
        d[k] = v
    return d


def _mkset(items):
    return PSet(items)


# --------------------------------------------------------------- methods
_STR_METHODS = frozenset(
    '''join startswith endswith strip lstrip rstrip split rsplit splitlines
    replace find rfind index rindex count encode decode format lower upper
    title capitalize swapcase partition rpartition zfill ljust rjust center
    isdigit isalpha isalnum isspace isupper islower translate
    expandtabs'''.split())


def _str_call(s, name, a, kw):
    if name == 'join':
        return join(s, a[0])
    if name == 'encode':
        enc = a[0] if a else 'ascii'
        return str_encode(s, enc, *a[1:])
    if name == 'decode':
        enc = a[0] if a else 'ascii'
        return str_decode(s, enc, *a[1:])
    if name == 'format':
        return str_format(s, a, kw)
    if any(deep_sym(x) for x in a):
        if name in ('ljust', 'rjust', 'center', 'zfill', 'expandtabs'):
            a = tuple(B.int(x) if isinstance(x, SymInt) else x for x in a)
            return getattr(s, name)(*a)
        if name in ('strip', 'lstrip', 'rstrip', 'replace', 'startswith',
                    'endswith', 'find', 'rfind', 'index', 'rindex', 'count',
                    'split', 'rsplit', 'partition', 'rpartition'):
            return getattr(SymStr(codes_of(s)), name)(*a, **kw)
        raise Unsupported('str.%s with symbolic argument' % name)
    if name == 'strip' and not a:
        return s.strip(' \t\n\r\x0b\x0c')
    if name in ('lstrip', 'rstrip') and not a:
        return getattr(s, name)(' \t\n\r\x0b\x0c')
    return getattr(s, name)(*a, **kw)


def norm_codec(enc):
    return enc.lower().replace('_', '-')


def str_encode(s, enc, errors='strict'):
    return s


def str_decode(s, enc, errors='strict'):
    if type(s) is str and any(127 < ord(c) for c in s) and all(
            ord(c) < 256 for c in s):
        # bytes, one character each
        return s.encode('latin-1').decode(norm_codec(enc), errors)
    return s


def str_format(s, a, kw):
    if not any(deep_sym(x) for x in a) and not any(
            deep_sym(x) for x in kw.values()):
        return s.format(*a, **kw)
    import string
    pieces, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        pieces.append(lit)
        if field is None:
            continue
        name = field
        if name == '':
            v = a[auto]
            auto += 1
        elif name.isdigit():
            v = a[B.int(name)]
        elif name in kw:
            v = kw[name]
        else:
            raise Unsupported('format field %r' % field)
        if spec:
            if not is_sym(v):
                pieces.append(('{:%s}' % spec).format(v))
                continue
            import re as _re
            m = _re.match(r'^(0?)(\d*)d?$', spec)
            if not m:
                raise Unsupported('format spec %r' % spec)
            pieces.append(_format_one('d', m.group(1), m.group(2), '', v))
        else:
            pieces.append(py2_repr(v) if conv == 'r' else py2_str(v))
    return join('', pieces)


def _meth(obj, name):
    t = type(obj)
    if t is str:
        if name in _STR_METHODS:
            return lambda *a, **kw: _str_call(obj, name, a, kw)
        return getattr(obj, name)
    if t is list:
        if name == 'sort':
            return functools.partial(list_sort, obj)
        if name == 'index':
            return functools.partial(list_index, obj)
        if name == 'count':
            return lambda x: B.sum(1 for y in obj if _eq_elem(y, x))
        return getattr(obj, name)
    if isinstance(obj, dict):
        if isinstance(obj, PDict):
            return getattr(obj, name)
        if name in ('items', 'keys', 'values'):
            return lambda: B.list(getattr(obj, name)())
        if name in ('iteritems', 'iterkeys', 'itervalues'):
            return lambda: iter(getattr(obj, name[4:])())
        if name == 'has_key':
            return lambda k: k in obj
        return getattr(obj, name)
    if name == 'next' and not hasattr(obj, 'next'):
        return lambda: B.next(obj)
    return getattr(obj, name)


def list_index(lst, x, *rng):
    for i in B.range(*slice(*(rng or (None,))).indices(len(lst)) if rng
                     else (len(lst),)):
        if _eq_elem(lst[i], x):
            return i
    raise ValueError('%r is not in list' % (x,))


def py2_key(cmp=None, key=None):
    if cmp is not None:
        base = functools.cmp_to_key(lambda a, b: _toint(cmp(a, b)))
    else:
        base = _LtKey
    if key is None:
        return base
    return lambda x: base(key(x))


def _toint(r):
    if isinstance(r, Sym):
        if r < 0:
            return -1
        return 1 if r > 0 else 0
    return r


class _LtKey(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(_lt(self.v, o.v))


def list_sort(lst, cmp=None, key=None, reverse=False):
    lst[:] = py2_sorted(lst, cmp, key, reverse)


def py2_sorted(it, cmp=None, key=None, reverse=False):
    items = B.list(it)
    if all(isinstance(x, (str, int)) for x in items) and cmp is None \
            and key is None and len(set(map(type, items))) <= 1:
        return B.sorted(items, reverse=bool(reverse))
    return B.sorted(items, key=py2_key(cmp, key), reverse=bool(reverse))


# ----------------------------------------------------------- type objects
class _Meta(type):
    """Metaclass of the stand-ins for int, str, ...: calling one converts,
    isinstance() recognises native and symbolic values."""

    def __instancecheck__(cls, x):
        d = cls.__dict__.get('_native')
        if d is None:
            return type.__instancecheck__(cls, x)
        return isinstance(x, d)

    def __subclasscheck__(cls, c):
        d = cls.__dict__.get('_native')
        if d is None or not isinstance(c, type):
            return type.__subclasscheck__(cls, c)
        return type.__subclasscheck__(cls, c) or issubclass(c, d)

    def __call__(cls, *a, **kw):
        f = cls.__dict__.get('_convert')
        if f is None:
            return type.__call__(cls, *a, **kw)
        return f(*a, **kw)

    def __eq__(cls, o):
        return cls is o or (isinstance(o, type) and
                            o in cls.__dict__.get('_same', ()))

    def __hash__(cls):
        return type.__hash__(cls)


def conv_int(x=0, *base):
    if base:
        b = base[0]
        if isinstance(x, SymStr):
            return int_of_str(x, b)
        return B.int(x, b)
    if isinstance(x, str):
        if '_' in x:
            raise ValueError('invalid literal for int(): %r' % x)
        return B.int(x.strip(' \t\n\r\x0b\x0c'))
    if isinstance(x, SymInt):
        return x
    if isinstance(x, PartText):
        from .stubs import dt
        return dt.DateField(x.src.d, x.f)
    if isinstance(x, SymStr):
        return int_of_str(x)
    if isinstance(x, SymReal):
        return x.trunc()
    if isinstance(x, SymBool):
        return x._i()
    f = getattr(type(x), '__int__', None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return B.int(x)


def conv_float(x=0.0):
    if isinstance(x, str):
        if '_' in x:
            raise ValueError('could not convert string to float: %s' % x)
        return B.float(x)
    if isinstance(x, SymStr):
        return float_of_str(x)
    if isinstance(x, SymInt):
        return SymReal(z3.ToReal(x.e))
    if isinstance(x, SymBool):
        return conv_float(x._i())
    if isinstance(x, SymReal):
        return x
    return B.float(x)


def conv_bool(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return mkbool(z3.simplify(x.e != 0))
    return bool(x)


def conv_str(x='', enc=None, errors=None):
    return py2_str(x)


class PInt(B.int, metaclass=_Meta):
    _native = (B.int, SymInt, SymBool)
    _convert = staticmethod(conv_int)
    _same = (B.int, SymInt)


class PLong(B.int, metaclass=_Meta):
    _native = ()
    _convert = staticmethod(conv_int)
    _same = ()


class PFloat(B.float, metaclass=_Meta):
    _native = (B.float, SymReal)
    _convert = staticmethod(conv_float)
    _same = (B.float, SymReal)


class PBool(B.int, metaclass=_Meta):
    _native = (B.bool, SymBool)
    _convert = staticmethod(conv_bool)
    _same = (B.bool, SymBool)


def _unbound(name):
    def f(s, *a, **kw):
        return _meth(s, name)(*a, **kw)
    f.__name__ = name
    return staticmethod(f)


class PStr(B.str, metaclass=_Meta):
    _native = (B.str, SymStr)
    _convert = staticmethod(conv_str)
    _same = (B.str, SymStr)


for _n in _STR_METHODS:
    setattr(PStr, _n, _unbound(_n))


class PObjectType(type):
    pass


def py2_type(*a):
    if len(a) == 3:
        return _py2class(B.type(*a))
    x = a[0]
    if isinstance(x, (B.bool, SymBool)):
        return PBool
    if isinstance(x, (SymInt,)) or type(x) is B.int:
        return PInt
    if isinstance(x, SymReal) or type(x) is B.float:
        return PFloat
    if isinstance(x, SymStr) or type(x) is B.str:
        return PStr
    return B.type(x)


class PType(B.type, metaclass=_Meta):
    _native = (B.type,)
    _convert = staticmethod(py2_type)


# ------------------------------------------------------------- class fixes
def _py2class(cls):
    d = cls.__dict__
    if '__cmp__' in d:
        c = d['__cmp__']

        def mk(op):
            def f(self, o):
                r = c(self, o)
                if r is NotImplemented:
                    return NotImplemented
                return {'<': lambda: r < 0, '<=': lambda: r <= 0,
                        '>': lambda: r > 0, '>=': lambda: r >= 0,
                        '==': lambda: r == 0, '!=': lambda: r != 0}[op]()
            return f
        for op, name in (('<', '__lt__'), ('<=', '__le__'), ('>', '__gt__'),
                         ('>=', '__ge__'), ('==', '__eq__'), ('!=', '__ne__')):
            if name not in d:
                setattr(cls, name, mk(op))
    if '__hash__' in d and d['__hash__'] is None and (
            '__eq__' in d or '__cmp__' in d):
        for b in cls.__mro__[1:]:
            h = b.__dict__.get('__hash__')
            if h is not None:
                cls.__hash__ = h
                break
    if '__cmp__' in d and '__hash__' not in d or d.get('__hash__') is None:
        cls.__hash__ = object.__hash__
    if '__eq__' in d and '__ne__' not in d and not any(
            '__ne__' in b.__dict__ for b in cls.__mro__[1:-1]):
        cls.__ne__ = lambda self, o: self is not o
    if '__nonzero__' in d:
        f = d['__nonzero__']
        cls.__bool__ = lambda self: bool(f(self))
    if 'next' in d and '__next__' not in d:
        cls.__next__ = d['next']
    if '__div__' in d and '__truediv__' not in d:
        cls.__truediv__ = d['__div__']
    return cls


# -------------------------------------------------------------- functions
def py2_range(*a):
    return B.list(B.range(*a))


def py2_map(f, *its):
    if len(its) == 1:
        return [x if f is None else f(x) for x in its[0]]
    its = [B.list(i) for i in its]
    n = max(len(i) for i in its)
    rows = [tuple(i[k] if k < len(i) else None for i in its)
            for k in B.range(n)]
    return [r if f is None else f(*r) for r in rows]


def py2_filter(f, it):
    r = [x for x in it if (x if f is None else f(x))]
    if isinstance(it, tuple):
        return tuple(r)
    if is_str(it):
        return join('', r)
    return r


def py2_zip(*its):
    return B.list(B.zip(*its))


def _minmax(op, a, key, default=None):
    items = B.list(a[0]) if len(a) == 1 else B.list(a)
    if not items:
        raise ValueError('arg is an empty sequence')
    if key is None and len(items) > 1 and all(num_like(x) for x in items) \
            and any(is_sym(x) for x in items) and not any(
                is_inf(x) for x in items):
        kinds = set(num_expr(x)[0] for x in items)
        if len(kinds) == 1:
            k = kinds.pop()
            r = num_expr(items[0])[1]
            for x in items[1:]:
                e = num_expr(x)[1]
                r = z3.If(e < r if op == '<' else e > r, e, r)
            r = z3.simplify(r)
            return mkint(r) if k == 'i' else SymReal(r)
    best = items[0]
    bk = best if key is None else key(best)
    for x in items[1:]:
        k = x if key is None else key(x)
        if _order(k, bk, op):
            best, bk = x, k
    return best


def py2_min(*a, **kw):
    return _minmax('<', a, kw.get('key'))


def py2_max(*a, **kw):
    return _minmax('>', a, kw.get('key'))


def py2_ord(c):
    if isinstance(c, SymStr):
        ch = c.ch
        if len(ch) != 1 or isinstance(ch[0], Tok):
            raise TypeError('ord() expected a character')
        return ch[0] if isinstance(ch[0], int) else SymInt(ch[0])
    return B.ord(c)


def py2_chr(i):
    if isinstance(i, SymInt):
        return SymStr((i.e,))
    return B.chr(i)


def _attr_name(n):
    return n.realize() if isinstance(n, SymStr) else n


def py2_getattr(o, n, *d):
    return B.getattr(o, _attr_name(n), *d)


def py2_setattr(o, n, v):
    B.setattr(o, _attr_name(n), v)


def py2_hasattr(o, n):
    try:
        B.getattr(o, _attr_name(n))
        return True
    except Exception:
        return False


def py2_delattr(o, n):
    B.delattr(o, _attr_name(n))


def py2_abs(x):
    if isinstance(x, (SymInt, SymReal)):
        return abs(x)
    return B.abs(x)


def py2_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def py2_len(x):
    if isinstance(x, SymStr) and not isinstance(x, (DateText, PartText)):
        k = sum(1 for c in x.ch if isinstance(c, Tok))
        if k:
            # a float is printed with 3 to 25 characters
            n = core.CTX.fresh_int('len')
            r = len(x.ch) - k
            core.CTX.assume(z3.And(n >= r + 3 * k, n <= r + 25 * k))
            return SymInt(n)
    return B.len(x)


def py2_hash(x):
    return B.hash(x)


def py2_divmod(a, b):
    return divmod(a, b)


def py2_any(it):
    for x in it:
        if x:
            return True
    return False


def py2_all(it):
    for x in it:
        if not x:
            return False
    return True


class Sink(object):
    def write(self, s): pass
    def flush(self): pass
    def isatty(self): return False
    def close(self): pass
    encoding = 'utf-8'


def py2_print(*a, **kw):
    f = kw.get('file')
    if f is None or isinstance(f, Sink):
        return
    sep, end = kw.get('sep', ' '), kw.get('end', '\n')
    f.write(join('', [join(sep if sep is not None else ' ',
                           [py2_str(x) for x in a]), end]))


def no_open(*a, **kw):
    raise Unsupported('open() in a symbolic run')


class NoFile(object):
    """The file type; there are no files in a symbolic run."""

    def __new__(cls, *a, **kw):
        raise Unsupported('file() in a symbolic run')


class PSlice(object):
    pass


def py2_apply(f, a=(), kw={}):
    return f(*a, **kw)


def make_builtins(importer):
    d = {}
    for n in dir(B):
        v = getattr(B, n)
        if isinstance(v, type) and issubclass(v, BaseException):
            d[n] = v
    d.update(
        StandardError=Exception, None_=None,
        Ellipsis=Ellipsis, NotImplemented=NotImplemented,
        __build_class__=B.__build_class__, __import__=importer,
        __name__='builtins',
        int=PInt, long=PLong, float=PFloat, bool=PBool, str=PStr,
        unicode=PStr, basestring=PStr, bytes=PStr, type=PType,
        object=object, list=B.list, tuple=B.tuple, dict=PDict, set=PSet,
        frozenset=PFrozenSet, slice=slice, complex=B.complex,
        bytearray=B.bytearray,
        super=super, property=property, staticmethod=staticmethod,
        classmethod=classmethod, isinstance=isinstance,
        issubclass=issubclass, callable=callable, id=id, iter=iter,
        next=next, vars=vars, dir=dir, globals=globals, locals=locals,
        len=py2_len, hash=py2_hash, repr=py2_repr, range=py2_range,
        xrange=B.range, map=py2_map, filter=py2_filter, zip=py2_zip,
        min=py2_min, max=py2_max, ord=py2_ord, chr=py2_chr,
        unichr=py2_chr, getattr=py2_getattr, setattr=py2_setattr,
        hasattr=py2_hasattr, delattr=py2_delattr, abs=py2_abs,
        sum=py2_sum, divmod=py2_divmod, any=py2_any, all=py2_all,
        enumerate=enumerate, reversed=reversed, sorted=py2_sorted,
        reduce=functools.reduce, cmp=_cmp, round=sround, pow=pow,
        hex=hex, oct=oct, print=py2_print, open=no_open, file=NoFile,
        apply=py2_apply, intern=lambda s: s, input=no_open,
        raw_input=no_open, exit=sys.exit,
        _eq=_eq, _ne=_ne, _lt=_lt, _le=_le, _gt=_gt, _ge=_ge, _in=_in,
        _notin=_notin, _getitem=_getitem, _is=_is, _isnot=_isnot, _div=_div,
        _truediv=_truediv, _mod=_mod, _mkdict=_mkdict, _mkset=_mkset,
        _meth=_meth, _py2class=_py2class, _any_exception=any_exception)
    d['True'], d['False'], d['None'] = True, False, None
    return d
