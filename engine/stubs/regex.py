"""re for concrete and symbolic text.

Concrete text uses CPython's own engine with ASCII classes (Python 2 byte
strings).  For symbolic text the pattern's parse tree is matched against the
characters: every way to match is a conjunction of character conditions, in
the order a backtracking matcher would try them; the match exists iff their
disjunction holds."""
import re as _re
from re import _parser, _constants as C
import z3
from .. import core
from ..core import Unsupported
from ..symtypes import (DateText, PartText, SymStr, SymBool, SymReal, Tok, ChPos, FLOATCODES, codes_of, mkstr, in_ranges,
                        holds, join)
from .. import py2rt

I = IGNORECASE = int(_re.I)
M = MULTILINE = int(_re.M)
S = DOTALL = int(_re.S)
X = VERBOSE = int(_re.X)
U = UNICODE = 0
L = LOCALE = 0
error = _re.error

_CLASSES = {
    C.CATEGORY_DIGIT: ((48, 57),),
    C.CATEGORY_SPACE: ((9, 13), (32, 32)),
    C.CATEGORY_WORD: ((48, 57), (65, 90), (95, 95), (97, 122)),
}
_NEG = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
        C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
        C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}


def _inv(r):
    out, lo = [], 0
    for a, b in sorted(r):
        if a > lo:
            out.append((lo, a - 1))
        lo = max(lo, b + 1)
    out.append((lo, 0x10ffff))
    return tuple(out)


def _ci(ranges):
    """Close a set of ranges under ASCII case."""
    s = list(ranges)
    for a, b in ranges:
        lo, hi = max(a, 65), min(b, 90)
        if lo <= hi:
            s.append((lo + 32, hi + 32))
        lo, hi = max(a, 97), min(b, 122)
        if lo <= hi:
            s.append((lo - 32, hi - 32))
    return tuple(sorted(set(s)))


def _set_ranges(items, flags):
    neg, out = False, []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append((av, av))
        elif op is C.RANGE:
            out.append(tuple(av))
        elif op is C.CATEGORY:
            if av in _CLASSES:
                out.extend(_CLASSES[av])
            else:
                out.extend(_inv(_CLASSES[_NEG[av]]))
        else:
            raise Unsupported('regex set item %s' % op)
    if flags & I:
        out = _ci(out)
    out = _merge(out)
    return _inv(out) if neg else out


def _merge(r):
    out = []
    for a, b in sorted(r):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    return tuple(out)


def _conj(conds, c):
    if c is True:
        return conds
    if c is False:
        return None
    return conds + (c,)


class _Matcher(object):
    MAX = 20000

    def __init__(self, ch, flags):
        self.ch = ch
        self.n = len(ch)
        self.flags = flags
        self.steps = 0

    def char(self, pos, ranges):
        if pos >= self.n:
            return False
        c = self.ch[pos]
        if isinstance(c, Tok):
            if any(lo <= k <= hi for lo, hi in ranges for k in FLOATCODES):
                raise Unsupported('regex over float text')
            return False
        return in_ranges(c, ranges)

    def seq(self, items, i, pos, g, conds, k):
        """Yield results of k(pos, groups, conds) for items[i:] at pos."""
        self.steps += 1
        if self.steps > self.MAX:
            raise Unsupported('regex has too many ways to match')
        if i == len(items):
            yield from k(pos, g, conds)
            return
        op, av = items[i]
        nxt = lambda p, gg, cc: self.seq(items, i + 1, p, gg, cc, k)
        if op is C.LITERAL:
            r = ((av, av),)
            if self.flags & I:
                r = _ci(r)
            cc = _conj(conds, self.char(pos, r))
            if cc is not None:
                yield from nxt(pos + 1, g, cc)
        elif op is C.NOT_LITERAL:
            r = ((av, av),)
            if self.flags & I:
                r = _ci(r)
            cc = _conj(conds, self.char(pos, _inv(r)))
            if cc is not None:
                yield from nxt(pos + 1, g, cc)
        elif op is C.ANY:
            r = ((0, 0x10ffff),) if self.flags & S else _inv(((10, 10),))
            cc = _conj(conds, self.char(pos, r)) if pos < self.n else None
            if cc is not None:
                yield from nxt(pos + 1, g, cc)
        elif op is C.IN:
            cc = _conj(conds, self.char(pos, _set_ranges(av, self.flags)))
            if cc is not None:
                yield from nxt(pos + 1, g, cc)
        elif op is C.BRANCH:
            for alt in av[1]:
                yield from self.seq(list(alt), 0, pos, g, conds, nxt)
        elif op is C.SUBPATTERN:
            gid, add, sub, p = av
            if add or sub:
                raise Unsupported('inline regex flags')

            def close(p2, gg, cc, start=pos):
                if gid is not None:
                    gg = dict(gg)
                    gg[gid] = (start, p2)
                yield from nxt(p2, gg, cc)
            yield from self.seq(list(p), 0, pos, g, conds, close)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            hi = self.n + 1 if hi is C.MAXREPEAT else hi
            p = list(p)
            yield from self.rep(p, lo, hi, 0, pos, -1, g, conds, nxt,
                                op is C.MAX_REPEAT)
        elif op is C.AT:
            c = self.at(av, pos)
            cc = _conj(conds, c)
            if cc is not None:
                yield from nxt(pos, g, cc)
        elif op is C.GROUPREF:
            if av in g:
                a, b = g[av]
                cc = conds
                for j in range(a, b):
                    if pos + j - a >= self.n:
                        cc = None
                        break
                    x, y = self.ch[j], self.ch[pos + j - a]
                    c = (x == y) if isinstance(x, int) and isinstance(
                        y, int) else (x == y)
                    cc = _conj(cc, c)
                    if cc is None:
                        break
                if cc is not None:
                    yield from nxt(pos + b - a, g, cc)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                lo, hi = p.getwidth()
                if lo != hi or pos - lo < 0:
                    if lo != hi:
                        raise Unsupported('variable look-behind')
                    alts = []
                else:
                    alts = list(self.seq(list(p), 0, pos - lo, {}, (),
                                         lambda p2, gg, cc: [(p2, gg, cc)]))
            else:
                alts = list(self.seq(list(p), 0, pos, {}, (),
                                     lambda p2, gg, cc: [(p2, gg, cc)]))
            ex = _exists(alts)
            if op is C.ASSERT_NOT:
                ex = (not ex) if isinstance(ex, bool) else z3.Not(ex)
            cc = _conj(conds, ex)
            if cc is not None:
                yield from nxt(pos, g, cc)
        else:
            raise Unsupported('regex op %s' % op)

    def rep(self, p, lo, hi, cnt, pos, last, g, conds, k, greedy):
        def more(p2, gg, cc):
            if p2 == pos and cnt >= lo:
                return
            yield from self.rep(p, lo, hi, cnt + 1, p2, pos, gg, cc, k,
                                greedy)
        if greedy:
            if cnt < hi and pos <= self.n:
                yield from self.seq(p, 0, pos, g, conds, more)
            if cnt >= lo:
                yield from k(pos, g, conds)
        else:
            if cnt >= lo:
                yield from k(pos, g, conds)
            if cnt < hi and pos <= self.n:
                yield from self.seq(p, 0, pos, g, conds, more)

    def at(self, av, pos):
        if av is C.AT_BEGINNING_STRING or (
                av is C.AT_BEGINNING and not self.flags & M):
            return pos == 0
        if av is C.AT_BEGINNING:
            return True if pos == 0 else self.char(pos - 1, ((10, 10),))
        if av is C.AT_END_STRING:
            return pos == self.n
        if av is C.AT_END:
            if pos == self.n:
                return True
            if self.flags & M or pos == self.n - 1:
                return self.char(pos, ((10, 10),))
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = _CLASSES[C.CATEGORY_WORD]
            a = self.char(pos - 1, w) if pos > 0 else False
            b = self.char(pos, w)
            za = z3.BoolVal(a) if isinstance(a, bool) else a
            zb = z3.BoolVal(b) if isinstance(b, bool) else b
            r = z3.simplify(z3.Xor(za, zb))
            if av is C.AT_NON_BOUNDARY:
                r = z3.simplify(z3.Not(r))
            if z3.is_true(r):
                return True
            if z3.is_false(r):
                return False
            return r
        raise Unsupported('regex anchor %s' % av)


def _exists(alts):
    parts = []
    for _, _, cc in alts:
        if not cc:
            return True
        parts.append(z3.And(*cc) if len(cc) > 1 else cc[0])
    if not parts:
        return False
    return z3.Or(*parts) if len(parts) > 1 else parts[0]


class Match(object):
    def __init__(self, pattern, subject, alts, base):
        self.re = pattern
        self.string = subject
        self._alts = alts
        self._chosen = None
        self.pos, self.endpos = base, chlen(subject)

    def _pick(self):
        if self._chosen is None:
            for a in self._alts:
                if not a[2] or holds(z3.And(*a[2]) if len(a[2]) > 1
                                     else a[2][0]):
                    self._chosen = a
                    break
            else:
                raise core.Infeasible()
        return self._chosen

    def _gid(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if g > self.re.groups:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        a, b = self._pick()[1].get(self._gid(g), (-1, -1))
        if has_tok(self.string):
            a, b = ChPos(a), ChPos(b)
        return a, b

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self.span(g)
            out.append(None if a < 0 else self.string[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    def groups(self, default=None):
        r = []
        for g in range(1, self.re.groups + 1):
            v = self.group(g)
            r.append(default if v is None else v)
        return tuple(r)

    def groupdict(self, default=None):
        d = py2rt.PDict()
        for k, g in self.re.groupindex.items():
            v = self.group(g)
            d[k] = default if v is None else v
        return d

    def expand(self, template):
        raise Unsupported('match.expand')

    @property
    def lastindex(self):
        gs = self._pick()[1]
        ks = [k for k in gs if k]
        return max(ks) if ks else None


def has_tok(s):
    return (isinstance(s, SymStr) and not isinstance(s, (DateText, PartText))
            and any(isinstance(c, Tok) for c in s.ch))


def chlen(s):
    return len(s.ch) if has_tok(s) else len(s)


class FloatMatch(object):
    """A match of a float's text of which only the success is known."""

    def __getattr__(self, n):
        raise Unsupported('groups of a float text')


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymStr):
            p = pattern.plain()
            if p is None:
                raise Unsupported('symbolic regex')
            pattern = p
        self.pattern = pattern
        self._re = _re.compile(pattern, flags | _re.ASCII)
        tree = _parser.parse(pattern, flags | _re.ASCII)
        self.flags = tree.state.flags & (I | M | S | X)
        self._items = list(tree)
        self.groups = self._re.groups
        self.groupindex = dict(self._re.groupindex)

    def _sym(self, s):
        return isinstance(s, SymStr) and s.plain() is None

    def _conc(self, s):
        if isinstance(s, SymStr):
            return s.plain()
        if not isinstance(s, str):
            raise TypeError('expected string or buffer')
        return s

    def _alts_at(self, s, starts):
        ch = codes_of(s)
        out = []
        for st in starts:
            m = _Matcher(ch, self.flags)

            def fin(p, g, cc, st=st):
                g = dict(g)
                g[0] = (st, p)
                return [(p, g, cc)]
            for a in m.seq(self._items, 0, st, {}, (), fin):
                out.append(a)
                if not a[2]:
                    return out
        return out

    def _run(self, s, starts, base):
        alts = self._alts_at(s, starts)
        ex = _exists(alts)
        if not holds(ex):
            return None
        return Match(self, s, alts, base)

    def _uniform(self):
        """True if the pattern treats all ten digits alike."""
        def ok(items):
            for op, av in items:
                n = str(op)
                if n in ('LITERAL', 'NOT_LITERAL'):
                    if 48 <= av <= 57:
                        return False
                elif n == 'IN':
                    r = _set_ranges(av, self.flags)
                    k = sum(1 for c in range(48, 58)
                            if any(a <= c <= b for a, b in r))
                    if k not in (0, 10):
                        return False
                elif n in ('AT', 'ANY', 'CATEGORY'):
                    pass
                elif n in ('MAX_REPEAT', 'MIN_REPEAT'):
                    if not ok(av[2]):
                        return False
                elif n == 'SUBPATTERN':
                    if not ok(av[3]):
                        return False
                elif n == 'BRANCH':
                    if not all(ok(x) for x in av[1]):
                        return False
                else:
                    return False
            return True
        if not hasattr(self, '_uni'):
            self._uni = ok(self._items)
        return self._uni

    def match(self, s, pos=0, endpos=None):
        if isinstance(s, DateText) and endpos is None and self._uniform():
            m = self._re.match('0' * 8, pos)
            if m is None:
                return None
            g = dict((i, m.span(i)) for i in range(self.groups + 1)
                     if m.start(i) >= 0)
            return Match(self, s, [(m.end(), g, ())], pos)
        if has_tok(s):
            return self._float(s, pos)
        if not self._sym(s):
            s = self._conc(s)
            return self._re.match(s, pos) if endpos is None else \
                self._re.match(s, pos, endpos)
        if endpos is not None:
            s = s[:endpos]
        return self._run(s, [pos], pos)

    def _float(self, s, pos):
        """Match of a text that is just one printed float (its digits are
        all alike to the pattern, so one example per form decides)."""
        if len(s.ch) != 1 or pos or not self._uniform():
            raise Unsupported('regex over float text')
        num = s.ch[0].num
        if s.ch[0].fmt not in 'sr' or not isinstance(num, SymReal):
            raise Unsupported('regex over float text')
        e = num.e
        if not holds(z3.Or(e == 0, z3.And(z3.If(e < 0, -e, e) < 10 ** 7,
                                          z3.If(e < 0, -e, e) >= 0.001))):
            raise Unsupported('regex over an exponent')
        forms = ['0.0', '1.5', '12.0', '1234567.25', '0.0010']
        if holds(e < 0):
            forms = ['-' + f for f in forms]
        got = set(bool(self._re.match(f)) for f in forms)
        if len(got) != 1:
            raise Unsupported('regex over float text')
        return FloatMatch() if got.pop() else None

    def search(self, s, pos=0, endpos=None):
        if not self._sym(s):
            s = self._conc(s)
            return self._re.search(s, pos) if endpos is None else \
                self._re.search(s, pos, endpos)
        if endpos is not None:
            s = s[:endpos]
        return self._run(s, range(pos, chlen(s) + 1), pos)

    def finditer(self, s):
        if not self._sym(s):
            for m in self._re.finditer(self._conc(s)):
                yield m
            return
        pos = 0
        while pos <= chlen(s):
            m = self._run(s, range(pos, chlen(s) + 1), pos)
            if m is None:
                return
            yield m
            a, b = m.span()
            pos = b if b > a else b + 1

    def findall(self, s):
        if not self._sym(s):
            return self._re.findall(self._conc(s))
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) or '')
            else:
                out.append(tuple(x or '' for x in m.groups()))
        return out

    def _templ(self, repl, m):
        if callable(repl):
            return repl(m)
        if '\\' not in repl:
            return repl
        out, i = [], 0
        while i < len(repl):
            if repl[i] == '\\' and i + 1 < len(repl):
                c = repl[i + 1]
                if c.isdigit():
                    out.append(m.group(int(c)) or '')
                    i += 2
                    continue
                if c == 'g':
                    j = repl.index('>', i)
                    n = repl[i + 3:j]
                    out.append(m.group(int(n) if n.isdigit() else n) or '')
                    i = j + 1
                    continue
                out.append({'n': '\n', 't': '\t', 'r': '\r'}.get(
                    c, c if c == '\\' else '\\' + c))
                i += 2
                continue
            out.append(repl[i])
            i += 1
        return join('', out)

    def subn(self, repl, s, count=0):
        if not self._sym(s) and not isinstance(repl, SymStr) \
                and not callable(repl):
            return self._re.subn(repl, self._conc(s), count)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.span()
            out.append(s[pos:a])
            out.append(self._templ(repl, m))
            pos = b
            n += 1
        out.append(s[pos:])
        return join('', out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def split(self, s, maxsplit=0):
        if not self._sym(s):
            return self._re.split(self._conc(s), maxsplit)
        out, pos, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            if a == b:
                continue
            out.append(s[pos:a])
            out.extend(m.groups())
            pos = b
            n += 1
        out.append(s[pos:])
        return out


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, SymStr):
        pattern = pattern.realize()
    key = (pattern, int(flags))
    if key not in _cache:
        _cache[key] = Pattern(pattern, int(flags))
    return _cache[key]


def match(p, s, flags=0): return compile(p, flags).match(s)
def search(p, s, flags=0): return compile(p, flags).search(s)
def findall(p, s, flags=0): return compile(p, flags).findall(s)
def finditer(p, s, flags=0): return compile(p, flags).finditer(s)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def subn(p, repl, s, count=0, flags=0):
    return compile(p, flags).subn(repl, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def escape(s):
    if isinstance(s, SymStr):
        s = s.realize()
    return ''.join(c if c.isalnum() else '\\' + c for c in s)


def purge():
    pass
