"""C39: the viewer serves only plain files of its own directory."""
BOUNDS = {'quick': {'name': 5, 'text': 3}, 'thorough': {'name': 7, 'text': 4}}
COVERS = {'h_file': ['opened', 'refused', 'absent', 'extension'],
          'h_any': ['home', 'page', 'refused', 'file'],
          'h_json': ['handled', 'unknown'],
          'h_params': ['value', 'blank', 'quoted', 'two'],
          'h_static': ['served'],
          'h_home': ['root', 'named']}
SECONDS = {'quick': 500, 'thorough': 3000}
ASSUMPTIONS = ['the file type lookup is any answer; opening a file is '
               'recorded, not done']
PLAIN = 'abcdefghijklmnopqrstuvwxyz0123456789_-.'


class Box(object):
    pass


def viewer(I, files=None, mime='text/html', text='<body>'):
    """A request handler that records what it does."""
    sv = I.load('schedule_viewer')
    log = []

    class Out(object):
        def __init__(self):
            self.text = ''

        def write(self, t):
            self.text += t

    class File(object):
        def __init__(self, text):
            self.text = text

        def read(self):
            return self.text

    class H(sv.ScheduleRequestHandler):
        def __init__(self):
            self.server = Box()
            self.server.file_dir = 'DIR'
            self.wfile = Out()

        def send_response(self, code, message=None):
            log.append(('reply', code))

        def send_error(self, code, message=None):
            log.append(('error', code))

        def send_header(self, k, v):
            log.append(('header', k, v))

        def end_headers(self):
            pass

    def opened(name, mode='r'):
        log.append(('open', name, mode))
        if files is not None and name not in files:
            raise IOError('no such file')
        return File(text)
    sv.open = opened
    I.patch(sv.mimetypes, 'guess_type', lambda n, strict=True: (mime, None))
    return sv, H, log


def opened(log):
    return [x[1] for x in log if x[0] == 'open']


def plain(I, path):
    """One file of the directory, by its own plain name."""
    I.check(path[:4] == 'DIR/', 'in the directory')
    name = path[4:]
    I.check(len(name) > 0, 'a name')
    dots = 0
    for c in name:
        I.check(c in PLAIN, 'plain characters')
        if c == '.':
            dots += 1
    I.check(dots <= 1 and name[:1] != '.', 'no directory')
    return name


def h_file(I):
    """Requests for files, with every name."""
    absent = I.flag('absent')
    mime = I.choice('mime', ['text/html', 'image/png'])
    sv, H, log = viewer(I, [] if absent else None, mime)
    name = I.str('name', 0, I.b['name'], 'a0-./A%\n')
    h = H()
    h.path = '/file/' + name
    h.do_GET()
    ops = opened(log)
    I.check(len(ops) <= 1, 'one file')
    ok = 1 < len(name)
    for c in name:
        ok = ok and bool(I.Or(*[c == x for x in 'a0-.']))
    dots = [i for i in range(len(name)) if ok and name[i] == '.']
    ok = ok and (not dots or len(dots) == 1 and 0 < dots[0] < len(name) - 1)
    codes = [x[1] for x in log if x[0] == 'error']
    if ops:
        got = plain(I, ops[0])
        I.check(name[:len(got)] == got, 'the name asked for')
        I.check(name[len(got):] in ('', '\n'), 'all of it')
        mode = [x[2] for x in log if x[0] == 'open'][0]
        I.check(mode == ('r' if mime == 'text/html' else 'rb'), 'mode')
        if absent:
            I.check(codes == [404], 'no such file')
            I.cover('absent')
        else:
            I.check(not codes and h.wfile.text == '<body>', 'its content')
            I.cover('opened')
            if dots:
                I.cover('extension')
    else:
        I.check(not ok, 'plain names are served')
        I.check(codes == [404] and not h.wfile.text, 'not found')
        I.cover('refused')


def h_any(I):
    """Every short request path."""
    sv, H, log = viewer(I)
    seen = []
    H.handle_GET_home = lambda self, *a: seen.append('home')
    H.handle_GET_page = lambda self, p: seen.append('page')
    H.handle_GET_default_ = H.handle_GET_default

    def default(self, p, path):
        seen.append('default')
        return self.handle_GET_default_(p, path)
    H.handle_GET_default = default
    for n in ('handle_GET_ttablegraph',):
        setattr(H, n, lambda self, p: seen.append('graph'))
    h = H()
    h.path = I.choice('start', ['/', '/page', '/file', '/file/', '/file/ab',
                                '//file/', '/../file/ab', '/home'])
    h.path = h.path + I.str('rest', 0, I.b['text'], 'a/.?')
    h.do_GET()
    for p in opened(log):
        plain(I, p)
        I.check(h.path[:6] == '/file/' or h.path[:2] == '//',
                'only below /file')
        I.cover('file')
    codes = [x[1] for x in log if x[0] == 'error']
    I.check(codes in ([], [404]), 'at most one refusal')
    I.check(len(seen) + len(opened(log)) >= 1, 'answered')
    if codes:
        I.check(not h.wfile.text, 'nothing sent')
        I.cover('refused')
    if seen == ['home']:
        I.cover('home')
    if seen == ['page']:
        I.check(h.path[:5] == '/page' or h.path[:2] == '//', 'by its name')
        I.cover('page')


def h_json(I):
    """Data requests reach the handler of that name only."""
    sv, H, log = viewer(I)
    seen = []
    H.handle_json_wrapper_GET = lambda self, f, p: seen.append(f(p))
    H.handle_json_GET_ab = lambda self, p: 'ab'
    H.handle_json_GET_abc = lambda self, p: 'abc'
    H.handle_json_GET_b = 'not a handler'
    H.handle_GET_ab = lambda self, p: 'page'
    H.handle_GET_default = lambda self, p, path: seen.append('none')
    h = H()
    name = I.str('name', 0, I.b['name'] - 1, 'abc_/')
    h.path = '/json/' + name
    h.do_GET()
    letters = ''
    for c in name:
        if bool(I.Or(c == '_', c == '/')):
            break
        letters += c
    want = 'ab' if letters == 'ab' else 'abc' if letters == 'abc' else 'none'
    I.check(seen == [want], 'the handler of the name')
    I.check(not opened(log), 'no file')
    I.cover('unknown' if want == 'none' else 'handled')


def h_params(I):
    """Query parameters by name."""
    sv, H, log = viewer(I)
    seen = []
    H.handle_json_wrapper_GET = lambda self, f, p: f(p)
    H.handle_json_GET_ab = lambda self, p: seen.append(p)
    h = H()
    n = I.concrete(I.int('n', 1, 2))
    query, want = [], {}
    for i in range(n):
        k = 'k%d' % i
        kind = I.choice('kind%d' % i, ['value', 'blank', 'quoted'])
        if kind == 'blank':
            query.append(k)
            want[k] = ''
        else:
            v = I.str('v%d' % i, 0, I.b['text'] - 1, 'a1= ')
            want[k] = v
            query.append(k + '=' + (
                ''.join(['%' + quoted(c) for c in v]) if kind == 'quoted'
                else v))
        I.cover(kind)
    if n == 2:
        I.cover('two')
    h.path = '/json/ab?' + '&'.join(query)
    h.do_GET()
    I.check(len(seen) == 1 and sorted(seen[0].keys()) == sorted(want.keys()),
            'the names given')
    for k in want:
        I.check(seen[0][k] == want[k], 'the values given')


def quoted(c):
    return ('61' if c == 'a' else '31' if c == '1' else '3D' if c == '='
            else '20')


def h_static(I):
    """The whole file is sent with its type and length."""
    sv, H, log = viewer(I)
    text = I.str('text', 0, I.b['text'], 'ab\n')
    h = H()

    class F(object):
        def read(self):
            return text
    h.handle_static_file_GET(F(), 'text/x')
    I.check(h.wfile.text == text, 'its content')
    I.check(('header', 'Content-Length', str(len(text))) in log, 'its length')
    I.check(('header', 'Content-Type', 'text/x') in log, 'its type')
    I.check(('reply', 200) in log, 'found')
    I.cover('served')


def h_home(I):
    """The start page is filled in, by either address."""
    import hlib
    sv, H, log = viewer(I, text='[agency];[min_lat];[max_lon];[key];[host];'
                                '[forbid_editing];[other]')
    s, r, acc = hlib.schedule()
    names = []
    for i in range(I.concrete(I.int('n', 0, 2))):
        names.append(I.str('name%d' % i, 1, I.b['text'] - 1, 'ab&'))
        s.AddAgency(names[i], 'http://a.example', 'America/New_York',
                    'A%d' % i)
    s.AddStop(1.5, 2.5, 'one', 'S1')
    s.AddStop(3.5, -4.5, 'two', 'S2')
    h = H()
    h.server.schedule = s
    h.server.key = 'KEY'
    h.server.host = 'HOST'
    h.path = I.choice('path', ['/', '/home'])
    h.do_GET()
    I.check(h.wfile.text == ', '.join(names) + ';1.5;2.5;KEY;HOST;true;'
            '[other]', 'the page filled in')
    I.check(opened(log) == ['DIR/index.html'], 'its own page')
    I.check([x for x in log if x[0] == 'reply'] == [('reply', 200)], 'found')
    I.cover('root' if h.path == '/' else 'named')
