"""csv of Python 2, for concrete and symbolic text (CPython's state machine)."""
from ..symtypes import (SymStr, SymReal, SymInt, Tok, codes_of, mkstr,
                        in_codes, holds, is_str, join)
from .. import py2rt

QUOTE_MINIMAL, QUOTE_ALL, QUOTE_NONNUMERIC, QUOTE_NONE = 0, 1, 2, 3


class Error(Exception):
    pass


class Dialect(object):
    delimiter = ','
    quotechar = '"'
    doublequote = True
    skipinitialspace = False
    lineterminator = '\r\n'
    quoting = QUOTE_MINIMAL
    escapechar = None
    strict = False


class excel(Dialect):
    pass


class excel_tab(excel):
    delimiter = '\t'


_dialects = {'excel': excel, 'excel-tab': excel_tab}


def register_dialect(name, d=None, **kw):
    _dialects[name] = _mk(d or excel, kw)


def _mk(dialect, kw):
    if isinstance(dialect, str):
        dialect = _dialects[dialect]
    d = Dialect()
    for n in ('delimiter', 'quotechar', 'doublequote', 'skipinitialspace',
              'lineterminator', 'quoting', 'escapechar', 'strict'):
        setattr(d, n, kw[n] if n in kw else getattr(dialect, n))
    return d


def _is(c, code):
    if isinstance(c, Tok):
        return False
    if code is None:
        return False
    return holds(in_codes(c, (ord(code),)))


class reader(object):
    def __init__(self, it, dialect='excel', **kw):
        self.it = iter(it)
        self.dialect = _mk(dialect, kw)
        self.line_num = 0

    def __iter__(self):
        return self

    def __next__(self):
        d = self.dialect
        fields, cur = [], []
        state = 'START_RECORD'
        while True:
            try:
                line = next(self.it)
            except StopIteration:
                if cur or state in ('IN_QUOTED',):
                    fields.append(mkstr(cur))
                    if d.strict:
                        raise Error('unexpected end of data')
                    return fields
                raise
            self.line_num += 1
            if not is_str(line):
                raise Error('iterator should return strings')
            for c in codes_of(line) + (None,):
                end = c is None
                if not end and not isinstance(c, Tok) and holds(
                        in_codes(c, (0,))):
                    raise Error('line contains NULL byte')
                nl = end or (not isinstance(c, Tok) and holds(
                    in_codes(c, (10, 13))))
                if state == 'START_RECORD':
                    if end:
                        continue
                    if nl:
                        state = 'EAT_CRNL'
                        continue
                    state = 'START_FIELD'
                if state == 'START_FIELD':
                    if nl:
                        fields.append(mkstr(cur))
                        cur = []
                        state = 'START_RECORD' if end else 'EAT_CRNL'
                    elif _is(c, d.quotechar) and d.quoting != QUOTE_NONE:
                        state = 'IN_QUOTED'
                    elif _is(c, d.escapechar):
                        state = 'ESCAPED'
                    elif d.skipinitialspace and _is(c, ' '):
                        pass
                    elif _is(c, d.delimiter):
                        fields.append(mkstr(cur))
                        cur = []
                    else:
                        cur.append(c)
                        state = 'IN_FIELD'
                elif state == 'ESCAPED':
                    cur.append(10 if end else c)
                    state = 'IN_FIELD'
                elif state == 'IN_FIELD':
                    if nl:
                        fields.append(mkstr(cur))
                        cur = []
                        state = 'START_RECORD' if end else 'EAT_CRNL'
                    elif _is(c, d.escapechar):
                        state = 'ESCAPED'
                    elif _is(c, d.delimiter):
                        fields.append(mkstr(cur))
                        cur = []
                        state = 'START_FIELD'
                    else:
                        cur.append(c)
                elif state == 'IN_QUOTED':
                    if end:
                        pass
                    elif _is(c, d.escapechar):
                        state = 'ESC_Q'
                    elif _is(c, d.quotechar) and d.quoting != QUOTE_NONE:
                        state = 'QUOTE_IN_QUOTED' if d.doublequote \
                            else 'IN_FIELD'
                    else:
                        cur.append(c)
                elif state == 'ESC_Q':
                    cur.append(10 if end else c)
                    state = 'IN_QUOTED'
                elif state == 'QUOTE_IN_QUOTED':
                    if not end and _is(c, d.quotechar) and \
                            d.quoting != QUOTE_NONE:
                        cur.append(c)
                        state = 'IN_QUOTED'
                    elif not end and _is(c, d.delimiter):
                        fields.append(mkstr(cur))
                        cur = []
                        state = 'START_FIELD'
                    elif nl:
                        fields.append(mkstr(cur))
                        cur = []
                        state = 'START_RECORD' if end else 'EAT_CRNL'
                    elif not d.strict:
                        cur.append(c)
                        state = 'IN_FIELD'
                    else:
                        raise Error("'%s' expected after '%s'" %
                                    (d.delimiter, d.quotechar))
                elif state == 'EAT_CRNL':
                    if end:
                        state = 'START_RECORD'
                    elif nl:
                        pass
                    else:
                        raise Error('new-line character seen in unquoted '
                                    'field - do you need to open the file '
                                    'in universal-newline mode?')
            if state == 'START_RECORD':
                return fields

    next = __next__


class writer(object):
    def __init__(self, f, dialect='excel', **kw):
        self.f = f
        self.dialect = _mk(dialect, kw)

    def writerow(self, row):
        d = self.dialect
        out = []
        row = list(row)
        special = tuple(map(ord, d.delimiter + (d.quotechar or '') +
                            d.lineterminator + (d.escapechar or '')))
        for i, v in enumerate(row):
            if i:
                out.append(d.delimiter)
            if v is None:
                t = ''
            elif isinstance(v, float):
                t = repr(v)
            elif isinstance(v, SymReal):
                t = SymStr((Tok(v, 's'),))
            else:
                t = py2rt.py2_str(v)
            quote = d.quoting == QUOTE_ALL
            if d.quoting == QUOTE_NONNUMERIC and not py2rt.num_like(v):
                quote = True
            if d.quoting != QUOTE_NONE:
                for c in codes_of(t):
                    if quote:
                        break
                    if not isinstance(c, Tok) and holds(in_codes(c, special)):
                        quote = True
                if len(row) == 1 and not codes_of(t):
                    quote = True
            if quote:
                ch = [ord(d.quotechar)]
                for c in codes_of(t):
                    if _is(c, d.quotechar):
                        ch.append(ord(d.quotechar))
                    ch.append(c)
                ch.append(ord(d.quotechar))
                t = mkstr(ch)
            out.append(t)
        out.append(d.lineterminator)
        self.f.write(join('', out))

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


class DictReader(object):
    def __init__(self, f, fieldnames=None, restkey=None, restval=None,
                 dialect='excel', *a, **kw):
        self._fieldnames = fieldnames
        self.restkey, self.restval = restkey, restval
        self.reader = reader(f, dialect, *a, **kw)

    @property
    def fieldnames(self):
        if self._fieldnames is None:
            try:
                self._fieldnames = next(self.reader)
            except StopIteration:
                pass
        return self._fieldnames

    @property
    def line_num(self):
        return self.reader.line_num

    def __iter__(self):
        return self

    def __next__(self):
        names = self.fieldnames
        row = next(self.reader)
        while row == []:
            row = next(self.reader)
        d = py2rt.PDict()
        for k, v in zip(names, row):
            d[k] = v
        lf, lr = len(names), len(row)
        if lf < lr:
            d[self.restkey] = row[lf:]
        for k in names[lr:]:
            d[k] = self.restval
        return d

    next = __next__


class DictWriter(object):
    def __init__(self, f, fieldnames, restval='', extrasaction='raise',
                 dialect='excel', *a, **kw):
        self.fieldnames = fieldnames
        self.restval = restval
        self.extrasaction = extrasaction
        self.writer = writer(f, dialect, *a, **kw)

    def writeheader(self):
        self.writer.writerow(self.fieldnames)

    def writerow(self, d):
        if self.extrasaction == 'raise':
            bad = [k for k in d if k not in self.fieldnames]
            if bad:
                raise ValueError('dict contains fields not in fieldnames')
        self.writer.writerow([d.get(k, self.restval)
                              for k in self.fieldnames])

    def writerows(self, rows):
        for r in rows:
            self.writerow(r)


def field_size_limit(*a):
    return 131072
