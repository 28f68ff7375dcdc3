"""A small in-memory SQL engine (sqlite3 interface) over symbolic values:
CREATE TABLE/INDEX, INSERT, DELETE, UPDATE, SELECT with WHERE, aggregates,
GROUP BY, HAVING, ORDER BY, DISTINCT and LIMIT."""
import re as _re
import z3
from ..core import Unsupported
from ..symtypes import (Sym, SymInt, SymReal, SymBool, SymStr, is_sym, is_str,
                        num_expr)
from .. import py2rt

native = True
paramstyle = 'qmark'
version_info = (3, 0, 0)
PARSE_DECLTYPES, PARSE_COLNAMES = 1, 2


class Error(Exception):
    pass


class OperationalError(Error):
    pass


class ProgrammingError(Error):
    pass


class IntegrityError(Error):
    pass


class Row(tuple):
    pass


_TOK = _re.compile(r"\s*(?:(\d+)|([A-Za-z_][A-Za-z_0-9.]*)|"
                   r"'((?:[^']|'')*)'|\"([^\"]*)\"|(<>|!=|<=|>=|==|\|\||"
                   r"[-+*/(),?=<>;]))")


def tokenize(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = _TOK.match(s, i)
        if not m:
            raise OperationalError('near %r: syntax error' % s[i:i + 10])
        if m.group(1) is not None:
            out.append(('n', int(m.group(1))))
        elif m.group(2) is not None:
            out.append(('w', m.group(2)))
        elif m.group(3) is not None:
            out.append(('s', m.group(3).replace("''", "'")))
        elif m.group(4) is not None:
            out.append(('w', m.group(4)))
        else:
            out.append(('o', m.group(5)))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    return out


AGG = ('count', 'max', 'min', 'sum', 'total', 'avg')


class P(object):
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.np = 0

    def peek(self, *words):
        if self.i < len(self.t):
            k, v = self.t[self.i]
            return k in 'wo' and str(v).upper() in words
        return False

    def take(self, *words):
        if self.peek(*words):
            self.i += 1
            return True
        return False

    def need(self, *words):
        if not self.take(*words):
            raise OperationalError('syntax error, expected %s near token %d'
                                   % (words, self.i))

    def word(self):
        if self.i >= len(self.t) or self.t[self.i][0] != 'w':
            raise OperationalError('syntax error')
        self.i += 1
        return self.t[self.i - 1][1]

    # expressions
    def expr(self):
        e = self.and_()
        while self.take('OR'):
            e = ('or', e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.take('AND'):
            e = ('and', e, self.not_())
        return e

    def not_(self):
        if self.take('NOT'):
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            for op in ('=', '==', '!=', '<>', '<', '<=', '>', '>='):
                if self.take(op):
                    a = ('cmp', {'==': '=', '<>': '!='}.get(op, op), a,
                         self.add())
                    break
            else:
                break
        if self.take('IS'):
            neg = self.take('NOT')
            b = self.add()
            a = ('is', neg, a, b)
        elif self.peek('IN') or (self.peek('NOT') and
                                 str(self.t[self.i + 1][1]).upper() == 'IN'):
            neg = self.take('NOT')
            self.need('IN')
            self.need('(')
            items = [self.expr()]
            while self.take(','):
                items.append(self.expr())
            self.need(')')
            a = ('in', neg, a, items)
        elif self.take('BETWEEN'):
            lo = self.add()
            self.need('AND')
            hi = self.add()
            a = ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, hi))
        return a

    def add(self):
        e = self.mul()
        while self.peek('+', '-'):
            op = self.t[self.i][1]
            self.i += 1
            e = ('arith', op, e, self.mul())
        return e

    def mul(self):
        e = self.atom()
        while self.peek('*', '/'):
            op = self.t[self.i][1]
            self.i += 1
            e = ('arith', op, e, self.atom())
        return e

    def atom(self):
        if self.take('('):
            e = self.expr()
            self.need(')')
            return e
        if self.take('-'):
            return ('arith', '-', ('lit', 0), self.atom())
        if self.take('?'):
            self.np += 1
            return ('param', self.np - 1)
        if self.take('NULL'):
            return ('lit', None)
        k, v = self.t[self.i]
        if k in 'ns':
            self.i += 1
            return ('lit', v)
        if k == 'w':
            self.i += 1
            if self.take('('):
                fn = v.lower()
                if self.take('*'):
                    args = ['*']
                else:
                    distinct = self.take('DISTINCT')
                    args = [self.expr()]
                    while self.take(','):
                        args.append(self.expr())
                    if distinct:
                        fn += ' distinct'
                self.need(')')
                return ('fn', fn, args)
            return ('col', v.split('.')[-1].lower())
        raise OperationalError('syntax error near %r' % (v,))


def has_agg(e):
    if isinstance(e, (tuple, list)):
        if isinstance(e, tuple) and e and e[0] == 'fn' and \
                e[1].split()[0] in AGG and len(e[2]) == 1:
            return True
        return any(has_agg(x) for x in e)
    return False


def affinity(decl):
    d = decl.upper()
    if 'INT' in d:
        return 'INTEGER'
    if 'CHAR' in d or 'CLOB' in d or 'TEXT' in d:
        return 'TEXT'
    if 'BLOB' in d or not d:
        return 'NONE'
    if 'REAL' in d or 'FLOA' in d or 'DOUB' in d:
        return 'REAL'
    return 'NUMERIC'


def coerce(v, aff):
    if v is None:
        return None
    if isinstance(v, (bool,)):
        v = int(v)
    if isinstance(v, SymBool):
        v = v._i()
    if not isinstance(v, (int, float, str, SymInt, SymReal, SymStr)):
        raise ProgrammingError('Error binding parameter - probably '
                               'unsupported type %r' % type(v))
    if aff == 'TEXT':
        return v if is_str(v) else py2rt.py2_str(v)
    if aff in ('INTEGER', 'NUMERIC', 'REAL'):
        if is_str(v):
            if isinstance(v, SymStr):
                p = v.plain()
                if p is None:
                    raise Unsupported('symbolic text in a numeric column')
                v = p
            try:
                v = int(v)
            except ValueError:
                try:
                    v = float(v)
                except ValueError:
                    return v
        if aff == 'REAL':
            return py2rt.conv_float(v)
        if isinstance(v, float) and v == int(v):
            return int(v)
        if isinstance(v, SymReal):
            if py2rt.B.bool(v.is_integer()):
                return v.trunc()
        return v
    return v


class Table(object):
    def __init__(self, cols):
        self.cols = cols            # [(name, affinity)]
        self.names = [c[0] for c in cols]
        self.rows = []


class Connection(object):
    def __init__(self, *a, **kw):
        self.tables = {}
        self.row_factory = None
        self.text_factory = None

    def cursor(self, *a):
        return Cursor(self)

    def execute(self, *a):
        return self.cursor().execute(*a)

    def commit(self): pass
    def rollback(self): pass
    def close(self): pass


def connect(*a, **kw):
    return Connection()


def _order_key(v):
    return v


def sql_cmp(op, a, b):
    if a is None or b is None:
        return None
    # storage classes: numbers < text
    na, nb = py2rt.num_like(a), py2rt.num_like(b)
    if na != nb:
        lt = na
        return {'=': False, '!=': True, '<': lt, '<=': lt, '>': not lt,
                '>=': not lt}[op]
    return {'=': py2rt._eq, '!=': py2rt._ne, '<': py2rt._lt,
            '<=': py2rt._le, '>': py2rt._gt, '>=': py2rt._ge}[op](a, b)


def null_lt(a, b):
    """a sorts before b (NULL first, then numbers, then text)."""
    if a is None or b is None:
        return a is None and b is not None
    return sql_cmp('<', a, b)


_parse_cache = {}


class Cursor(object):
    arraysize = 1

    def __init__(self, conn):
        self.connection = conn
        self.rowcount = -1
        self._res = []
        self._pos = 0
        self.description = None
        self.lastrowid = None

    def close(self): pass

    def execute(self, sql, params=()):
        if isinstance(sql, SymStr):
            sql = str(sql)
        toks = _parse_cache.get(sql)
        if toks is None:
            toks = _parse_cache[sql] = tokenize(sql)
        p = P(toks)
        if isinstance(params, dict):
            raise Unsupported('named SQL parameters')
        self.params = list(params)
        need = sum(1 for t in toks if t == ('o', '?'))
        if need != len(self.params):
            raise ProgrammingError('Incorrect number of bindings supplied')
        self._res, self._pos = [], 0
        if p.take('CREATE'):
            self._create(p)
        elif p.take('INSERT'):
            self._insert(p)
        elif p.take('DELETE'):
            self._delete(p)
        elif p.take('UPDATE'):
            self._update(p)
        elif p.take('SELECT'):
            self._select(p)
        elif p.peek('PRAGMA', 'BEGIN', 'COMMIT', 'DROP', 'VACUUM'):
            pass
        else:
            raise OperationalError('syntax error: %s' % sql)
        return self

    def executemany(self, sql, rows):
        n = 0
        for r in rows:
            self.execute(sql, r)
            n += 1
        self.rowcount = n
        return self

    def executescript(self, s):
        for part in s.split(';'):
            if part.strip():
                self.execute(part)

    def _table(self, name):
        t = self.connection.tables.get(name.lower())
        if t is None:
            raise OperationalError('no such table: %s' % name)
        return t

    def _create(self, p):
        p.take('UNIQUE')
        p.take('TEMP', 'TEMPORARY')
        if p.take('INDEX'):
            return
        p.need('TABLE')
        if p.take('IF'):
            p.need('NOT')
            p.need('EXISTS')
        name = p.word()
        p.need('(')
        cols = []
        while True:
            cn = p.word()
            decl, depth = '', 0
            while depth or not p.peek(',', ')'):
                if p.peek('('):
                    depth += 1
                elif p.peek(')'):
                    depth -= 1
                decl += ' ' + str(p.t[p.i][1])
                p.i += 1
            cols.append((cn.lower(), affinity(decl)))
            if p.take(')'):
                break
            p.need(',')
        self.connection.tables[name.lower()] = Table(cols)

    def _ev(self, e, row, group=None):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k == 'param':
            v = self.params[e[1]]
            if isinstance(v, SymBool):
                v = v._i()
            if isinstance(v, bool):
                v = int(v)
            return v
        if k == 'col':
            if e[1] == 'rowid':
                return row['rowid']
            if e[1] not in row:
                if e[1] in self._alias:
                    return self._ev(self._alias[e[1]], row, group)
                raise OperationalError('no such column: %s' % e[1])
            return row[e[1]]
        if k == 'cmp':
            a, b = self._ev(e[2], row, group), self._ev(e[3], row, group)
            # a text parameter compared with a numeric column is converted
            a, b = self._conv(e[2], e[3], a, b)
            b, a = self._conv(e[3], e[2], b, a)
            return sql_cmp(e[1], a, b)
        if k == 'and':
            a = self._ev(e[1], row, group)
            if a is False or (a is not None and not a):
                return False
            b = self._ev(e[2], row, group)
            if b is False or (b is not None and not b):
                return False
            return None if a is None or b is None else True
        if k == 'or':
            a = self._ev(e[1], row, group)
            if a is not None and a:
                return True
            b = self._ev(e[2], row, group)
            if b is not None and b:
                return True
            return None if a is None or b is None else False
        if k == 'not':
            a = self._ev(e[1], row, group)
            return None if a is None else not a
        if k == 'is':
            a, b = self._ev(e[2], row, group), self._ev(e[3], row, group)
            if a is None or b is None:
                r = a is None and b is None
            else:
                r = bool(sql_cmp('=', a, b))
            return r != e[1]
        if k == 'in':
            a = self._ev(e[2], row, group)
            r = any(bool(sql_cmp('=', a, self._ev(x, row, group)))
                    for x in e[3])
            return r != e[1]
        if k == 'arith':
            a, b = self._ev(e[2], row, group), self._ev(e[3], row, group)
            if a is None or b is None:
                return None
            if e[1] == '+': return a + b
            if e[1] == '-': return a - b
            if e[1] == '*': return a * b
            return py2rt._div(a, b)
        if k == 'fn':
            fn = e[1]
            base = fn.split()[0]
            if base in AGG and len(e[2]) == 1:
                if group is None:
                    raise OperationalError('misuse of aggregate')
                if e[2][0] == '*':
                    return len(group)
                vals = [self._ev(e[2][0], r) for r in group]
                vals = [v for v in vals if v is not None]
                if fn.endswith('distinct'):
                    vals = list(py2rt.PSet(vals))
                if base == 'count':
                    return len(vals)
                if base == 'total':
                    return py2rt.conv_float(py2rt.py2_sum(vals))
                if not vals:
                    return None
                if base == 'max': return py2rt.py2_max(vals)
                if base == 'min': return py2rt.py2_min(vals)
                if base == 'sum': return py2rt.py2_sum(vals)
                return py2rt._truediv(py2rt.py2_sum(vals), len(vals))
            args = [self._ev(x, row, group) for x in e[2]]
            if base in ('coalesce', 'ifnull'):
                for a in args:
                    if a is not None:
                        return a
                return None
            if base == 'abs':
                return None if args[0] is None else abs(args[0])
            if base == 'max':
                return None if None in args else py2rt.py2_max(args)
            if base == 'min':
                return None if None in args else py2rt.py2_min(args)
            raise Unsupported('SQL function %s' % fn)
        raise Unsupported('SQL expression %r' % (e,))

    def _conv(self, ea, eb, a, b):
        """Affinity of column ea applied to the other operand."""
        if ea[0] == 'col' and eb[0] != 'col':
            aff = dict(self._tab.cols).get(ea[1])
            if aff == 'TEXT' and b is not None and not is_str(b):
                b = py2rt.py2_str(b)
            elif aff in ('INTEGER', 'REAL', 'NUMERIC') and is_str(b):
                b = coerce(b, aff)
        return a, b

    def _rowdict(self, t, r):
        d = dict(zip(t.names, r[1]))
        d['rowid'] = r[0]
        return d

    def _where(self, p, t):
        self._tab = t
        cond = p.expr() if p.take('WHERE') else None
        return cond

    def _match(self, t, cond):
        out = []
        for r in t.rows:
            if cond is None:
                out.append(r)
                continue
            v = self._ev(cond, self._rowdict(t, r))
            if v is not None and v:
                out.append(r)
        return out

    def _insert(self, p):
        if p.take('OR'):
            p.word()
        p.need('INTO')
        t = self._table(p.word())
        self._tab, self._alias = t, {}
        if p.take('('):
            names = [p.word().lower()]
            while p.take(','):
                names.append(p.word().lower())
            p.need(')')
        else:
            names = t.names
        p.need('VALUES')
        while True:
            p.need('(')
            vals = [self._ev(p.expr(), {})]
            while p.take(','):
                vals.append(self._ev(p.expr(), {}))
            p.need(')')
            if len(vals) != len(names):
                raise OperationalError('%d values for %d columns' %
                                       (len(vals), len(names)))
            row = [None] * len(t.names)
            for n, v in zip(names, vals):
                if n not in t.names:
                    raise OperationalError('no column named %s' % n)
                j = t.names.index(n)
                row[j] = coerce(v, t.cols[j][1])
            rid = (t.rows[-1][0] + 1) if t.rows else 1
            t.rows.append((rid, row))
            if not p.take(','):
                break
        self.rowcount = 1

    def _delete(self, p):
        p.need('FROM')
        t = self._table(p.word())
        self._alias = {}
        cond = self._where(p, t)
        gone = set(id(r) for r in self._match(t, cond))
        t.rows = [r for r in t.rows if id(r) not in gone]
        self.rowcount = len(gone)

    def _update(self, p):
        t = self._table(p.word())
        self._alias, self._tab = {}, t
        p.need('SET')
        sets = []
        while True:
            n = p.word().lower()
            p.need('=')
            sets.append((n, p.expr()))
            if not p.take(','):
                break
        cond = self._where(p, t)
        hit = self._match(t, cond)
        for r in hit:
            rd = self._rowdict(t, r)
            for n, e in sets:
                j = t.names.index(n)
                r[1][j] = coerce(self._ev(e, rd), t.cols[j][1])
        self.rowcount = len(hit)

    def _select(self, p):
        distinct = p.take('DISTINCT')
        exprs, self._alias = [], {}
        while True:
            if p.take('*'):
                exprs.append(('star',))
            else:
                e = p.expr()
                exprs.append(e)
                name = None
                if p.take('AS'):
                    name = p.word().lower()
                elif p.i < len(p.t) and p.t[p.i][0] == 'w' and not p.peek(
                        'FROM', 'WHERE', 'ORDER', 'GROUP', 'LIMIT'):
                    name = p.word().lower()
                if name:
                    self._alias[name] = e
            if not p.take(','):
                break
        p.need('FROM')
        t = self._table(p.word())
        if p.take('AS'):
            p.word()
        cond = self._where(p, t)
        group, having, order, limit, offset = None, None, [], None, 0
        if p.take('GROUP'):
            p.need('BY')
            group = [p.expr()]
            while p.take(','):
                group.append(p.expr())
            if p.take('HAVING'):
                having = p.expr()
        if p.take('ORDER'):
            p.need('BY')
            while True:
                e = p.expr()
                desc = p.take('DESC')
                if not desc:
                    p.take('ASC')
                order.append((e, desc))
                if not p.take(','):
                    break
        if p.take('LIMIT'):
            limit = self._ev(p.expr(), {})
            if p.take('OFFSET'):
                offset = self._ev(p.expr(), {})
            elif p.take(','):
                offset, limit = limit, self._ev(p.expr(), {})
        p.take(';')
        if p.i != len(p.t):
            raise OperationalError('syntax error near %r' % (p.t[p.i],))
        full = []
        for e in exprs:
            if e == ('star',):
                full.extend(('col', n) for n in t.names)
            else:
                full.append(e)
        exprs = full
        rows = [self._rowdict(t, r) for r in self._match(t, cond)]
        agg = any(has_agg(e) for e in exprs)
        items = []                      # (row, group)
        if group is not None:
            order_keys, tab = [], py2rt.PDict()
            for r in rows:
                key = tuple(self._ev(g, r) for g in group)
                got = tab.get(key)
                if got is None:
                    tab[key] = got = []
                    order_keys.append((key, got))
                got.append(r)
            groups = [(k, g) for k, g in order_keys]
            groups = self._sorted(groups, lambda it: list(it[0]),
                                  [False] * len(group))
            for k, g in groups:
                if having is not None:
                    v = self._ev(having, g[0], g)
                    if v is None or not v:
                        continue
                items.append((g[-1], g))
        elif agg:
            items = [(rows[-1] if rows else dict.fromkeys(
                t.names + ['rowid']), rows)]
        else:
            items = [(r, None) for r in rows]
        if order:
            items = self._sorted(
                items,
                lambda it: [self._ordv(e, it, exprs) for e, _ in order],
                [d for _, d in order])
        out = [tuple(self._ev(e, r, g) for e in exprs) for r, g in items]
        if distinct:
            seen, uniq = py2rt.PSet(), []
            for r in out:
                if r not in seen:
                    seen.add(r)
                    uniq.append(r)
            out = uniq
        if offset:
            out = out[offset:]
        if limit is not None and limit >= 0:
            out = out[:limit]
        self._res = out
        self.rowcount = -1

    def _ordv(self, e, it, exprs):
        if e[0] == 'lit' and isinstance(e[1], int):
            e = exprs[e[1] - 1]
        return self._ev(e, it[0], it[1])

    def _sorted(self, items, keyf, descs):
        import functools

        def cmp(x, y):
            for a, b, d in zip(x[0], y[0], descs):
                if null_lt(a, b):
                    return 1 if d else -1
                if null_lt(b, a):
                    return -1 if d else 1
            return 0
        dec = [(keyf(it), it) for it in items]
        dec.sort(key=functools.cmp_to_key(cmp))
        return [it for _, it in dec]

    def fetchone(self):
        if self._pos >= len(self._res):
            return None
        self._pos += 1
        return self._res[self._pos - 1]

    def fetchall(self):
        r = self._res[self._pos:]
        self._pos = len(self._res)
        return r

    def fetchmany(self, n=1):
        r = self._res[self._pos:self._pos + n]
        self._pos += len(r)
        return r

    def __iter__(self):
        while self._pos < len(self._res):
            self._pos += 1
            yield self._res[self._pos - 1]

    def next(self):
        r = self.fetchone()
        if r is None:
            raise StopIteration
        return r

    __next__ = next
