"""Small stand-ins for the standard library modules the code imports."""
import functools
import importlib.util
import itertools as _it
import math as _math
import json
import posixpath
import re as _re0
import sys as _sys
import types
import z3
from .. import core
from ..core import Unsupported
from ..symtypes import (Sym, SymStr, SymInt, SymReal, SymBool, is_sym, is_str, join,
                        codes_of, mkstr, num_expr, to_real)
from .. import py2rt
from . import regex, dt, csvmod, sqlmod


def mod(name, /, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


# ---------------------------------------------------------------- StringIO
class StringIO(object):
    def __init__(self, buf=''):
        self._parts = [buf] if buf is not None and not (
            isinstance(buf, str) and buf == '') else []
        self._pos = 0
        self.closed = False
        self._append = False

    def _all(self):
        s = join('', self._parts)
        self._parts = [s]
        return s

    def write(self, s):
        if not is_str(s):
            s = py2rt.py2_str(s)
        self._parts.append(s)
        self._pos = None

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def getvalue(self):
        return self._all()

    def read(self, n=-1):
        s = self._all()
        p = self._pos if self._pos is not None else len(s)
        if n is None or n < 0:
            self._pos = len(s)
            return s[p:]
        self._pos = min(len(s), p + n)
        return s[p:p + n]

    def readline(self, size=None):
        s = self._all()
        if isinstance(s, str):
            ch = None
            p = self._pos if self._pos is not None else len(s)
            j = s.find('\n', p)
            j = len(s) if j < 0 else j + 1
        else:
            ch = s.ch
            p = self._pos if self._pos is not None else len(ch)
            j = p
            from ..symtypes import in_codes, holds, Tok
            while j < len(ch):
                c = ch[j]
                j += 1
                if not isinstance(c, Tok) and holds(in_codes(c, (10,))):
                    break
        self._pos = j
        if ch is None:
            return s[p:j]
        return mkstr(ch[p:j])

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not codes_of(l):
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not codes_of(l):
            raise StopIteration
        return l

    next = __next__

    def seek(self, pos, whence=0):
        if whence == 0:
            self._pos = pos
        elif whence == 2:
            self._pos = len(self._all()) + pos
        else:
            self._pos += pos

    def tell(self):
        return self._pos if self._pos is not None else len(self._all())

    def truncate(self, n=None):
        s = self._all()
        n = self._pos if n is None else n
        self._parts = [s[:n or 0]]

    def close(self):
        self.closed = True

    def flush(self): pass
    def isatty(self): return False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()


# ----------------------------------------------------------------- zipfile
class BadZipfile(Exception):
    pass


class ZipInfo(object):
    def __init__(self, filename='NoName', date_time=(1980, 1, 1, 0, 0, 0)):
        self.filename = filename
        self.date_time = date_time
        self.external_attr = 0
        self.compress_type = 0


class ZipFile(object):
    """Keeps its members in memory, keyed by the file object it is opened
    on; on a path name it is unsupported."""
    _store = {}

    def __init__(self, file, mode='r', compression=0, allowZip64=False):
        if is_str(file):
            fs = core.CTX.__dict__.get('vfs')
            if fs is None:
                raise Unsupported('zip file on disk')
            if mode.startswith('r'):
                z = fs.get(file)
                if not isinstance(z, list):
                    raise BadZipfile('File is not a zip file')
                self._m = z
            else:
                self._m = fs[file] = []
        else:
            if mode.startswith('r'):
                m = getattr(file, '_zipmembers', None)
                if m is None:
                    raise BadZipfile('File is not a zip file')
                self._m = m
            else:
                self._m = file._zipmembers = []
        self.mode = mode
        self.filename = file if is_str(file) else None
        self.fp = file

    def writestr(self, name, data, compress_type=None):
        if isinstance(name, ZipInfo):
            name = name.filename
        self._m.append((name, data))

    def write(self, *a):
        raise Unsupported('zip write from disk')

    def namelist(self):
        return [n for n, _ in self._m]

    def infolist(self):
        return [ZipInfo(n) for n, _ in self._m]

    def getinfo(self, name):
        self.read(name)
        return ZipInfo(name)

    def read(self, name):
        for n, d in reversed(self._m):
            if py2rt._eq(n, name):
                return d
        raise KeyError('There is no item named %r in the archive' % (name,))

    def open(self, name, mode='r'):
        return StringIO(self.read(name))

    def close(self): pass
    def testzip(self): return None
    def __enter__(self): return self
    def __exit__(self, *a): pass


def is_zipfile(f):
    return getattr(f, '_zipmembers', None) is not None


# ------------------------------------------------------------------ codecs
def _utf8(s, enc='utf-8', errors='strict'):
    if isinstance(s, str):
        if any(ord(c) > 127 for c in s) and all(ord(c) < 256 for c in s):
            try:
                return s.encode('latin-1').decode(enc, errors)
            except UnicodeDecodeError:
                raise
        return s
    return s


def getdecoder(enc):
    return lambda s, errors='strict': (_utf8(s, enc, errors), len(s))


def _escape(s):
    out = ''
    for c in s:
        for raw, esc in (('\r', '\\r'), ('\n', '\\n'), ('\t', '\\t'),
                         ('\\', '\\\\'), ("'", "\\'")):
            if c == raw:
                out = out + esc
                break
        else:
            if isinstance(c, str) and not 32 <= ord(c) < 127:
                c = '\\x%02x' % ord(c)
            out = out + c
    return out


def getencoder(enc):
    if enc == 'string_escape':
        return lambda s, errors='strict': (_escape(s), len(s))
    return lambda s, errors='strict': (s, len(s))


class _RW(object):
    def __init__(self, stream, errors='strict'):
        self.stream = stream

    def __getattr__(self, n):
        return getattr(self.stream, n)

    def __iter__(self):
        return iter(self.stream)


def getwriter(enc): return _RW
def getreader(enc): return _RW


# --------------------------------------------------------------- itertools
def _filterfalse(f, it):
    return (x for x in it if not (f(x) if f else x))


def _groupby(it, key=None):
    groups, cur, ck = [], None, None
    for x in it:
        k = x if key is None else key(x)
        if cur is not None and py2rt._eq(k, ck):
            cur.append(x)
        else:
            cur, ck = [x], k
            groups.append((ck, cur))
    for k, g in groups:
        yield k, iter(g)


class count(object):
    def __init__(self, start=0, step=1):
        self.n, self.s = start, step

    def __iter__(self):
        return self

    def __next__(self):
        r = self.n
        self.n = r + self.s
        return r

    next = __next__


def _takewhile(f, it):
    for x in it:
        if not f(x):
            return
        yield x


def _dropwhile(f, it):
    it = iter(it)
    for x in it:
        if not f(x):
            yield x
            break
    for x in it:
        yield x


# ----------------------------------------------------------- bisect, heapq
def bisect_left(a, x, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if py2rt._lt(a[mid], x):
            lo = mid + 1
        else:
            hi = mid
    return lo


def bisect_right(a, x, lo=0, hi=None):
    hi = len(a) if hi is None else hi
    while lo < hi:
        mid = (lo + hi) // 2
        if py2rt._lt(x, a[mid]):
            hi = mid
        else:
            lo = mid + 1
    return lo


def insort_right(a, x, lo=0, hi=None):
    a.insert(bisect_right(a, x, lo, hi), x)


def insort_left(a, x, lo=0, hi=None):
    a.insert(bisect_left(a, x, lo, hi), x)


def _siftdown(heap, startpos, pos):
    newitem = heap[pos]
    while pos > startpos:
        parentpos = (pos - 1) >> 1
        parent = heap[parentpos]
        if py2rt._lt(newitem, parent):
            heap[pos] = parent
            pos = parentpos
            continue
        break
    heap[pos] = newitem


def _siftup(heap, pos):
    endpos = len(heap)
    startpos = pos
    newitem = heap[pos]
    childpos = 2 * pos + 1
    while childpos < endpos:
        rightpos = childpos + 1
        if rightpos < endpos and not py2rt._lt(heap[childpos],
                                               heap[rightpos]):
            childpos = rightpos
        heap[pos] = heap[childpos]
        pos = childpos
        childpos = 2 * pos + 1
    heap[pos] = newitem
    _siftdown(heap, startpos, pos)


def heappush(heap, item):
    heap.append(item)
    _siftdown(heap, 0, len(heap) - 1)


def heappop(heap):
    last = heap.pop()
    if heap:
        r = heap[0]
        heap[0] = last
        _siftup(heap, 0)
        return r
    return last


def heapreplace(heap, item):
    r = heap[0]
    heap[0] = item
    _siftup(heap, 0)
    return r


def heappushpop(heap, item):
    if heap and py2rt._lt(heap[0], item):
        item, heap[0] = heap[0], item
        _siftup(heap, 0)
    return item


def heapify(x):
    for i in reversed(range(len(x) // 2)):
        _siftup(x, i)


def nlargest(n, it, key=None):
    return py2rt.py2_sorted(it, key=key, reverse=True)[:n]


def nsmallest(n, it, key=None):
    return py2rt.py2_sorted(it, key=key)[:n]


def heapmerge(*its):
    return iter(py2rt.py2_sorted([x for it in its for x in it]))


# -------------------------------------------------------------------- math
def _sqrt(x):
    if not is_sym(x):
        return _math.sqrt(x)
    k, e = num_expr(x)
    e = to_real(k, e)
    if core.CTX.branch(e < 0):
        raise ValueError('math domain error')
    tab = core.CTX.__dict__.setdefault('sqrttab', {})
    e = z3.simplify(e)
    got = tab.get(e.get_id())
    if got is None:
        r = core.CTX.fresh_real('sqrt')
        core.CTX.assume(z3.And(r >= 0, r * r == e))
        got = tab[e.get_id()] = (e, r)
    return SymReal(got[1])


def _floor(x):
    if isinstance(x, SymReal):
        return SymReal(z3.ToReal(z3.ToInt(x.e)))
    if isinstance(x, SymInt):
        return py2rt.conv_float(x)
    return float(_math.floor(x))


def _ceil(x):
    if isinstance(x, SymReal):
        return SymReal(-z3.ToReal(z3.ToInt(-x.e)))
    if isinstance(x, SymInt):
        return py2rt.conv_float(x)
    return float(_math.ceil(x))


def _isnan(x): return False if is_sym(x) else _math.isnan(x)
def _isinf(x): return False if is_sym(x) else _math.isinf(x)


def _fabs(x): return abs(py2rt.conv_float(x))


def _mathfn(name):
    f = getattr(_math, name)

    def g(*a):
        if any(is_sym(x) for x in a):
            hook = core.CTX.__dict__.get('mathhook')
            if hook is not None:
                return hook(name, *a)
            raise Unsupported('math.%s of a symbolic number' % name)
        return f(*a)
    return g


def _hypot(a, b):
    if is_sym(a) or is_sym(b):
        return _sqrt(py2rt.conv_float(a) * a + py2rt.conv_float(b) * b)
    return _math.hypot(a, b)


def _math_module():
    m = mod('math', pi=_math.pi, e=_math.e, sqrt=_sqrt, floor=_floor,
            ceil=_ceil, isnan=_isnan, isinf=_isinf, fabs=_fabs, hypot=_hypot)
    for n in ('sin cos tan asin acos atan atan2 exp log log10 radians degrees '
              'pow fmod modf frexp ldexp trunc').split():
        setattr(m, n, _mathfn(n))
    r = lambda x: (x * (_math.pi / 180) if is_sym(x) else _math.radians(x))
    return m


# --------------------------------------------------------------------- os
def _unsup(what):
    def f(*a, **kw):
        raise Unsupported(what)
    return f


def _vfs():
    return core.CTX.__dict__.get('vfs')


def _isfile(p):
    v = _vfs()
    if v is None:
        return posixpath.isfile(p) if isinstance(p, str) else False
    return p in v


def _exists(p):
    v = _vfs()
    if v is None:
        import os
        return os.path.exists(p)
    return p in v


def _sympath(f):
    def g(*a):
        return f(*[x.realize() if isinstance(x, SymStr) else x for x in a])
    return g


def _os_modules():
    import os
    path = mod('os.path', isfile=_isfile, exists=_exists,
               isdir=lambda p: False if _vfs() is not None else
               os.path.isdir(p),
               join=path_join, basename=path_basename, dirname=path_dirname,
               split=path_split, splitext=path_splitext,
               abspath=_sympath(posixpath.abspath),
               normpath=_sympath(posixpath.normpath),
               realpath=_sympath(posixpath.realpath),
               isabs=lambda p: p.startswith('/'), sep='/',
               expanduser=lambda p: p, getsize=_unsup('getsize'),
               commonprefix=posixpath.commonprefix)
    o = mod('os', path=path, sep='/', linesep='\n', pathsep=':', name='posix',
            environ=py2rt.PDict(), getpid=lambda: 1, getcwd=lambda: '/',
            listdir=_unsup('listdir'), remove=_unsup('remove'),
            unlink=_unsup('unlink'), close=lambda fd: None,
            makedirs=_unsup('makedirs'), mkdir=_unsup('mkdir'),
            curdir='.', getenv=lambda k, d=None: d, devnull='/dev/null',
            error=OSError)
    return o, path


def path_join(a, *ps):
    for p in ps:
        if py2rt._meth(p, 'startswith')('/'):
            a = p
        elif not codes_of(a) or py2rt._meth(a, 'endswith')('/'):
            a = a + p
        else:
            a = a + '/' + p
    return a


def path_split(p):
    if isinstance(p, str):
        return posixpath.split(p)
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if codes_of(head):
        h = py2rt._meth(head, 'rstrip')('/')
        if codes_of(h):
            head = h
    return head, tail


def path_basename(p): return path_split(p)[1]
def path_dirname(p): return path_split(p)[0]


def path_splitext(p):
    if isinstance(p, str):
        return posixpath.splitext(p)
    i = p.rfind('.')
    s = p.rfind('/')
    if i <= s:
        return p, ''
    return p[:i], p[i:]


# ------------------------------------------------------------------- json
class JsonText(object):
    """Result of json.dumps: keeps the value instead of its text."""

    def __init__(self, value):
        self.value = value


def _json_dumps(v, *a, **kw):
    return JsonText(v)


class JsonEncoder(json.JSONEncoder):
    """The real encoder, after making every symbolic leaf concrete."""

    def encode(self, v):
        return json.JSONEncoder.encode(self, self._plain(v))

    def _plain(self, v):
        if isinstance(v, SymStr):
            return v.realize()
        if isinstance(v, SymInt):
            return v.__index__()
        if isinstance(v, SymBool):
            return bool(v)
        if isinstance(v, SymReal):
            raise Unsupported('JSON text of a symbolic number')
        if isinstance(v, dict):
            return dict((self._plain(k), self._plain(v[k])) for k in v)
        if isinstance(v, (list, tuple)):
            return [self._plain(x) for x in v]
        if v is None or isinstance(v, (str, int, float)):
            return v
        return self._plain(self.default(v))


# --------------------------------------------------------------------- urls
def urlparse(url, scheme='', allow_fragments=True):
    """(scheme, netloc, path, params, query, fragment) of a request path."""
    if isinstance(url, str):
        import urllib.parse
        return urllib.parse.urlparse(url, scheme, allow_fragments)
    netloc = ''
    i = url.find(':')
    if i > 0:
        ok = True
        for c in url[:i]:
            if not c.isalnum() if isinstance(c, str) else \
                    not py2rt.B.bool(c.isalnum()):
                if not py2rt._in(c, '+-.'):
                    ok = False
                    break
        if ok:
            rest = url[i + 1:]
            alld = len(rest) > 0 and bool(rest.isdigit())
            if not alld:
                scheme, url = py2rt._meth(url[:i], 'lower')(), rest
    if py2rt._meth(url, 'startswith')('//'):
        j = len(url)
        for k in range(2, len(url)):
            if py2rt._in(url[k], '/?#'):
                j = k
                break
        netloc, url = url[2:j], url[j:]
    fragment = query = ''
    if py2rt._in('#', url):
        url, _, fragment = py2rt._meth(url, 'partition')('#')
    if py2rt._in('?', url):
        url, _, query = py2rt._meth(url, 'partition')('?')
    params = ''
    if py2rt._in(';', url):
        i = py2rt._meth(url, 'find')(';', max(
            0, py2rt._meth(url, 'rfind')('/')))
        if i >= 0:
            url, params = url[:i], url[i + 1:]
    return (scheme, netloc, url, params, query, fragment)


def _hexval(c):
    import string
    return c


def unquote(s):
    if isinstance(s, str):
        import urllib.parse
        return urllib.parse.unquote(s, encoding='latin-1')
    from ..symtypes import int_of_str, in_ranges, holds, in_codes
    hx = ((48, 57), (65, 70), (97, 102))
    ch, out, i = s.ch, [], 0
    while i < len(ch):
        if (i + 2 < len(ch) and holds(in_codes(ch[i], (37,))) and
                holds(in_ranges(ch[i + 1], hx)) and
                holds(in_ranges(ch[i + 2], hx))):
            v = int_of_str(mkstr(ch[i + 1:i + 3]), 16)
            out.append(v if isinstance(v, int) else v.e)
            i += 3
        else:
            out.append(ch[i])
            i += 1
    return mkstr(out)


def unquote_plus(s):
    return unquote(py2rt._meth(s, 'replace')('+', ' '))


def quote(s, safe='/'):
    if isinstance(s, SymStr):
        s = s.realize()
    import urllib.parse
    return urllib.parse.quote(s, safe)


class _BaseRequestHandler(object):
    """BaseHTTPRequestHandler without a socket: records the reply."""

    def __init__(self, *a, **kw):
        pass

    def send_response(self, code, message=None): pass
    def send_header(self, k, v): pass
    def end_headers(self): pass
    def send_error(self, code, message=None): pass
    def log_message(self, *a): pass


class _HTTPServer(object):
    def __init__(self, addr, handler):
        self.server_address = addr
        self.RequestHandlerClass = handler


class URLError(IOError):
    pass


class HTTPError(URLError):
    pass


# ------------------------------------------------------------------ pytz
def _pytz():
    import ast
    src = open('/opt/py2libs/pytz/__init__.py', encoding='utf8').read()
    zones = []
    for node in ast.walk(ast.parse(src)):
        if isinstance(node, ast.Assign) and getattr(
                node.targets[0], 'id', '') in ('_all_timezones_unchecked',
                                               'common_timezones'):
            v = node.value
            lists = [x for x in ast.walk(v) if isinstance(x, ast.List)]
            if lists and len(lists[0].elts) > 50:
                got = [e.value if isinstance(e.value, str) else
                       e.value.decode() for e in lists[0].elts]
                if node.targets[0].id == 'common_timezones' or not zones:
                    zones = got
    ver = _re0.search(r"VERSION = '([^']*)'", src)
    return mod('pytz', common_timezones=zones, all_timezones=zones,
               VERSION=ver.group(1) if ver else '2018.1',
               common_timezones_set=set(zones))


# ------------------------------------------------------------------- random
def _rnd(what):
    def f(*a):
        hook = core.CTX.__dict__.get('randomhook')
        if hook is None:
            raise Unsupported('random.%s' % what)
        return hook(what, *a)
    return f


class _Namespace(object):
    pass


def _real(name):
    import importlib
    return importlib.import_module(name)


def _copy_module():
    import copy
    return mod('copy', copy=copy.copy, deepcopy=copy.deepcopy,
               Error=copy.Error)


def _string_module():
    import string
    m = mod('string')
    for n in dir(string):
        if not n.startswith('__'):
            setattr(m, n, getattr(string, n))
    m.lowercase, m.uppercase = string.ascii_lowercase, string.ascii_uppercase
    m.letters = string.ascii_letters
    m.join = lambda l, sep=' ': join(sep, l)
    m.maketrans = str.maketrans
    return m


def _sys_module(modules):
    sink = py2rt.Sink()
    return mod('sys', stdout=sink, stderr=sink, stdin=sink, argv=['prog'],
               exit=_sys.exit, modules=modules, path=[],
               exc_info=_sys.exc_info, version_info=(2, 7, 3, 'final', 0),
               version='2.7.3', platform='java', maxint=2 ** 63 - 1,
               maxsize=2 ** 63 - 1, getfilesystemencoding=lambda: 'utf-8',
               getdefaultencoding=lambda: 'ascii', executable='python',
               hexversion=0x20703f0, exc_clear=lambda: None,
               getrecursionlimit=_sys.getrecursionlimit,
               setrecursionlimit=lambda n: None)


class EnumMeta(type):
    """enum34's Enum, for classes of plain values."""
    def __new__(cls, name, bases, d):
        plain = dict((k, v) for k, v in d.items() if k.startswith('_') or
                     isinstance(v, (staticmethod, classmethod, property)) or
                     callable(v))
        t = type.__new__(cls, name, bases, plain)
        t._members = []
        for k, v in d.items():
            if k in plain:
                continue
            m = object.__new__(t)
            m.name, m.value = k, v
            t._members.append(m)
            type.__setattr__(t, k, m)
        return t

    def __call__(cls, value):
        for m in cls._members:
            if m is value or holds(m.value == value):
                return m
        raise ValueError('%r is not a valid %s' % (value, cls.__name__))

    def __iter__(cls):
        return iter(cls._members)

    def __len__(cls):
        return len(cls._members)

    def __getitem__(cls, name):
        for m in cls._members:
            if m.name == name:
                return m
        raise KeyError(name)


class Enum(object, metaclass=EnumMeta):
    def __repr__(self):
        return '<%s.%s: %r>' % (type(self).__name__, self.name, self.value)

    def __str__(self):
        return '%s.%s' % (type(self).__name__, self.name)


def build(modules):
    """name -> module for every stand-in."""
    out = {}

    def put(m):
        out[m.__name__] = m
        return m
    o, path = _os_modules()
    put(o)
    put(path)
    out['posixpath'] = path
    put(_sys_module(modules))
    rx = mod('re')
    for n in ('I IGNORECASE M MULTILINE S DOTALL X VERBOSE U UNICODE L LOCALE '
              'error match search findall finditer sub subn split escape '
              'compile purge').split():
        setattr(rx, n, getattr(regex, n))
    put(rx)
    put(mod('enum', Enum=Enum))
    put(mod('datetime', date=dt.date, datetime=dt.datetime,
            timedelta=dt.timedelta, MINYEAR=1, MAXYEAR=9999,
            tzinfo=object, time=object))
    put(mod('time', strptime=dt.strptime, strftime=dt.strftime,
            mktime=dt.mktime, localtime=dt.localtime, gmtime=dt.gmtime,
            time=dt.time, sleep=dt.sleep, tzname=dt.tzname, clock=dt.time,
            timezone=0, daylight=0, struct_time=dt.struct_time))
    c = mod('csv')
    for n in dir(csvmod):
        if not n.startswith('_'):
            setattr(c, n, getattr(csvmod, n))
    put(c)
    q = mod('sqlite3')
    for n in dir(sqlmod):
        if not n.startswith('_'):
            setattr(q, n, getattr(sqlmod, n))
    put(q)
    put(mod('StringIO', StringIO=StringIO))
    out['cStringIO'] = out['StringIO']
    put(mod('io', StringIO=StringIO, BytesIO=StringIO, open=py2rt.no_open))
    put(mod('zipfile', ZipFile=ZipFile, ZipInfo=ZipInfo,
            BadZipfile=BadZipfile, BadZipFile=BadZipfile, ZIP_DEFLATED=8,
            ZIP_STORED=0, is_zipfile=is_zipfile))
    put(mod('codecs', getdecoder=getdecoder, getencoder=getencoder,
            getwriter=getwriter, getreader=getreader,
            open=py2rt.no_open, BOM_UTF8='\xef\xbb\xbf',
            BOM_UTF16_LE='\xff\xfe', BOM_UTF16_BE='\xfe\xff',
            BOM_UTF16='\xff\xfe', BOM='\xff\xfe',
            decode=lambda s, e='ascii', r='strict': _utf8(s, e, r),
            encode=lambda s, e='ascii', r='strict': s))
    put(mod('weakref', proxy=lambda x, cb=None: x, ref=lambda x: lambda: x,
            WeakKeyDictionary=py2rt.PDict, WeakValueDictionary=py2rt.PDict))
    put(mod('warnings', warn=lambda *a, **k: None,
            simplefilter=lambda *a, **k: None,
            filterwarnings=lambda *a, **k: None))
    put(mod('itertools', izip=zip, imap=map, ifilter=lambda f, i: (
        x for x in i if (f(x) if f else x)), ifilterfalse=_filterfalse,
        izip_longest=_it.zip_longest, count=count, chain=_it.chain,
        product=_it.product, groupby=_groupby, islice=_it.islice,
        repeat=_it.repeat, cycle=_it.cycle, tee=_it.tee,
        combinations=_it.combinations, permutations=_it.permutations,
        takewhile=_takewhile, dropwhile=_dropwhile, starmap=_it.starmap,
        compress=_it.compress))
    put(mod('bisect', bisect_left=bisect_left, bisect_right=bisect_right,
            bisect=bisect_right, insort=insort_right,
            insort_right=insort_right, insort_left=insort_left))
    put(mod('heapq', heappush=heappush, heappop=heappop,
            heapreplace=heapreplace, heappushpop=heappushpop,
            heapify=heapify, nlargest=nlargest, nsmallest=nsmallest,
            merge=heapmerge))
    put(_copy_module())
    import collections
    put(mod('collections', defaultdict=py2rt.PDefaultDict,
            OrderedDict=py2rt.POrderedDict, deque=collections.deque,
            namedtuple=collections.namedtuple, Counter=_counter(),
            Iterable=collections.abc.Iterable,
            Mapping=collections.abc.Mapping,
            Sequence=collections.abc.Sequence))
    put(_math_module())
    put(mod('random', randint=_rnd('randint'), random=_rnd('random'),
            choice=_rnd('choice'), shuffle=_rnd('shuffle'),
            randrange=_rnd('randrange'), seed=lambda *a: None,
            uniform=_rnd('uniform'), sample=_rnd('sample')))
    put(mod('functools', reduce=functools.reduce, partial=functools.partial,
            wraps=functools.wraps, update_wrapper=functools.update_wrapper,
            cmp_to_key=functools.cmp_to_key,
            total_ordering=functools.total_ordering))
    import operator
    ops = mod('operator')
    for n in dir(operator):
        if not n.startswith('__'):
            setattr(ops, n, getattr(operator, n))
    ops.eq, ops.ne, ops.lt, ops.le, ops.gt, ops.ge = (
        py2rt._eq, py2rt._ne, py2rt._lt, py2rt._le, py2rt._gt, py2rt._ge)
    ops.contains = lambda c, x: py2rt._in(x, c)
    ops.div = py2rt._div
    put(ops)
    put(_string_module())
    put(mod('json', dumps=_json_dumps, loads=_real('json').loads,
            JSONEncoder=JsonEncoder,
            dump=lambda v, f, **k: f.write(_json_dumps(v))))
    out['simplejson'] = out['json']
    put(mod('urlparse', urlparse=urlparse))
    put(mod('urllib', unquote=unquote, unquote_plus=unquote_plus,
            quote=quote))
    put(mod('urllib2', URLError=URLError, HTTPError=HTTPError,
            urlopen=_unsup('urlopen'), Request=_unsup('Request')))
    put(mod('BaseHTTPServer', BaseHTTPRequestHandler=_BaseRequestHandler,
            HTTPServer=_HTTPServer))
    put(mod('mimetypes', guess_type=_real('mimetypes').guess_type,
            add_type=lambda *a, **k: None, init=lambda *a: None))

    def resource_string(name, fn):
        import os
        base = modules[name]
        with open(os.path.join(os.path.dirname(base.__file__), fn),
                  encoding='utf8') as f:
            return f.read()
    put(mod('pkg_resources', resource_string=resource_string))
    put(_pytz())
    put(mod('decimal', Decimal=_real('decimal').Decimal))
    put(mod('tempfile', mkstemp=_unsup('mkstemp'), mkdtemp=_unsup('mkdtemp'),
            NamedTemporaryFile=lambda *a, **k: types.SimpleNamespace(
                name='/tmp/database', close=lambda: None),
            TemporaryFile=_unsup('TemporaryFile')))
    put(mod('types', StringType=py2rt.PStr, UnicodeType=py2rt.PStr,
            StringTypes=(py2rt.PStr,), IntType=py2rt.PInt,
            FloatType=py2rt.PFloat, ListType=list, TupleType=tuple,
            DictType=dict, NoneType=type(None), BooleanType=py2rt.PBool,
            FunctionType=types.FunctionType,
            MethodType=types.MethodType, GeneratorType=types.GeneratorType))
    put(mod('webbrowser', open=lambda *a: None))
    put(mod('shutil'))
    put(mod('socket', gethostname=lambda: 'localhost', error=IOError,
            setdefaulttimeout=lambda t: None,
            timeout=IOError))
    put(mod('resource'))
    put(mod('signal'))
    put(mod('subprocess'))
    put(mod('cProfile'))
    put(mod('pstats'))
    put(mod('glob', glob=_unsup('glob')))
    put(mod('gc', collect=lambda *a: 0))
    put(mod('threading', Lock=_Lock, RLock=_Lock))
    for n in ('inspect', 'traceback', 'optparse', 'argparse', 'logging',
              'enum', 'abc', 'textwrap', 'cmd', 'htmlentitydefs',
              'contextlib', 'errno', 'numbers', 'fractions', 'array',
              'keyword', 'pprint', 'unittest', 'xml', 'xml.dom',
              'xml.dom.minidom', 'xml.etree', 'xml.etree.ElementTree',
              'xml.sax', 'xml.sax.saxutils', 'getopt', 'calendar',
              'struct', 'hashlib', 'base64', 'binascii', 'html'):
        try:
            out[n] = _real(n)
        except ImportError:
            pass
    # the repository's own command line, not the checker's
    for n, name in (('optparse', 'sys'), ('argparse', '_sys')):
        spec = importlib.util.find_spec(n)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        setattr(m, name, out['sys'])
        out[n] = m
    tb = mod('traceback')
    tb.__dict__.update({k: v for k, v in out['traceback'].__dict__.items()
                        if not k.startswith('__')})
    out['traceback'] = tb
    tw = mod('textwrap', TextWrapper=out['textwrap'].TextWrapper,
             wrap=out['textwrap'].wrap, fill=out['textwrap'].fill,
             dedent=out['textwrap'].dedent)
    out['textwrap'] = tw
    out['exceptions'] = mod('exceptions')
    return out


class _Lock(object):
    def acquire(self, *a): return True
    def release(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass


def _counter():
    class Counter(py2rt.PDict):
        def __init__(self, it=()):
            py2rt.PDict.__init__(self)
            for x in it:
                self[x] = self[x] + 1

        def __missing__(self, k):
            return 0

        def most_common(self, n=None):
            r = py2rt.py2_sorted(self.items(), key=lambda kv: -kv[1])
            return r if n is None else r[:n]
    return Counter
