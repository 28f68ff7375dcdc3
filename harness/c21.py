"""C21: line endings."""
import hlib
BOUNDS = {'quick': {'chars': 7, 'lines': 7},
          'thorough': {'chars': 10, 'lines': 9}}
COVERS = {'h_text': ['clean', 'bad ending', 'mixed', 'no final ending'],
          'h_many': ['lf', 'crlf', 'mixed', 'more than five'],
          'h_separator': ['separator', 'none']}


def read(text):
    from transitfeed import util
    from StringIO import StringIO
    r, acc = hlib.reporter()
    c = util.EndOfLineChecker(StringIO(text), 'f.txt', r)
    return list(c), acc


def mixed(I, acc, crlf, lf):
    """The one report about mixed endings; crlf, lf are line numbers."""
    got = [e for e in acc.of('OtherProblem') if 'Found' in e.description]
    if not (crlf and lf):
        I.check(not got, 'not mixed')
        return
    I.check(len(got) == 1, 'mixed endings reported once')

    def part(name, lines):
        t = ', '.join(['%d' % x for x in lines[:5]])
        if len(lines) > 5:
            t += ', ...'
        return '%d %s line end%s (line%s %s)' % (
            len(lines), name, 's' if len(lines) > 1 else '',
            's' if len(lines) > 1 else '', t)
    d = got[0].description
    I.log('text', d)
    I.check(part('CR LF "\\r\\n"', crlf) in d and part('LF "\\n"', lf) in d,
            'numbers and lines named')
    I.cover('mixed')


def h_text(I):
    t = I.str('text', 0, I.b['chars'], 'a\r\n')
    want, bad, ends, crlf, lf = [], [], [], [], []
    cur, n = [], 0
    chars = [c for c in t]
    lines = []
    for c in chars:
        cur.append(c)
        if c == '\n':
            lines.append(cur)
            cur = []
    if cur:
        lines.append(cur)
        I.cover('no final ending')
    for line in lines:
        n += 1
        body = list(line)
        end = []
        while body and (body[-1] == '\r' or body[-1] == '\n'):
            end.insert(0, '\n' if body.pop() == '\n' else '\r')
        end = ''.join(end)
        want.append(''.join(body))
        if end == '\r\n':
            crlf.append(n)
        elif end == '\n':
            lf.append(n)
        elif end != '':
            bad.append(n)
            ends.append(end.replace('\r', '\\r').replace('\n', '\\n'))
    got, acc = read(t)
    I.log('lines', got)
    I.check(got == want, 'lines without endings')
    seen = acc.of('InvalidLineEnd')
    I.check([e.row_num for e in seen] == bad, 'bad endings')
    for e in seen:
        I.check(e.file_name == 'f.txt' and e.GetType() == 1, 'where')
        I.cover('bad ending')
    I.check([e.bad_line_end for e in seen] == ends, 'which ending')
    inside = [i + 1 for i in range(n) if '\r' in want[i]]
    seen = [e for e in acc.of('OtherProblem')
            if 'Carriage Return' in e.description]
    I.check([e.row_num for e in seen] == inside, 'CR inside a line')
    mixed(I, acc, crlf, lf)
    I.check(len(acc.problems) == len(bad) + len(inside) +
            (1 if crlf and lf else 0), 'nothing else')
    if not acc.problems:
        I.cover('clean')


def h_many(I):
    n = I.choice('n', range(1, I.b['lines'] + 1))
    text, crlf, lf = [], [], []
    for i in range(n):
        # the last line needs no ending
        k = I.choice('e%d' % i, ['\n', '\r\n', ''] if i == n - 1 else
                     ['\n', '\r\n'])
        text.append('ab' + k)
        if k == '\n':
            lf.append(i + 1)
        elif k:
            crlf.append(i + 1)
    got, acc = read(''.join(text))
    I.check(got == ['ab'] * n, 'lines')
    mixed(I, acc, crlf, lf)
    I.check(len(acc.problems) == (1 if crlf and lf else 0), 'nothing else')
    if not lf:
        I.cover('crlf')
    if not crlf:
        I.cover('lf')
    if crlf and lf and (len(crlf) > 5 or len(lf) > 5):
        I.cover('more than five')


def h_separator(I):
    """Characters some readers take for line ends."""
    seps = ['\x0c', '\r', '\xe2\x80\xa8', '\xe2\x80\xa9', '\xc2\x85', '']
    a = I.choice('a', seps)
    b = I.choice('b', seps)
    pre = I.str('pre', 0, 2, 'xy')
    got, acc = read(pre + a + 'z' + b + 'w\n' + 'q' + a + 'w\n')
    I.check(got == [pre + a + 'z' + b + 'w', 'q' + a + 'w'], 'lines')
    want = [1] * len(set([x for x in (a, b) if x])) + ([2] if a else [])
    seen = acc.of('OtherProblem')
    I.check([e.row_num for e in seen] == want and
            len(acc.problems) == len(want), 'separators reported')
    I.cover('separator' if want else 'none')
