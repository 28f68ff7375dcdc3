"""C20: table reading."""
import hlib
BOUNDS = {'quick': {'cols': 2, 'len': 2, 'rows': 3, 'rowcols': 3},
          'thorough': {'cols': 3, 'len': 2, 'rows': 4, 'rowcols': 4}}
COVERS = {'h_dict_header': ['clean', 'duplicate', 'unknown', 'missing',
                            'deprecated', 'blank', 'nothing known', 'spaces'],
          'h_tuple_header': ['clean', 'duplicate', 'unknown', 'missing',
                             'deprecated'],
          'h_dict_rows': ['even', 'long', 'short', 'empty line'],
          'h_tuple_rows': ['even', 'long', 'short', 'empty line'],
          'h_cells': ['cell']}
COLS = ['a', 'b', 'bb']
REQ = ['a', 'bb']
DEPR = [('ba', 'b'), ('ab', None)]


def reader(text):
    from transitfeed import loader
    r, acc = hlib.reporter()
    ld = loader.Loader(problems=r, zip=hlib.FakeZip({'t.txt': text}))
    return ld, acc


def rows_of(ld, which, cols=COLS, req=REQ, depr=DEPR):
    f = ld._ReadCsvDict if which == 'dict' else ld._ReadCSV
    return list(f('t.txt', list(cols), list(req), list(depr)))


def headers(I):
    n = I.choice('n', range(1, I.b['cols'] + 1))
    hs = [I.str('h%d' % i, 0, I.b['len'], 'ab ') for i in range(n)]
    if n == 1:
        I.assume(len(hs[0]) > 0)
    return hs


def common(I, acc, names):
    """Reports shared by both readers; names are the stripped headers."""
    for c in COLS + ['aa', 'ba', 'ab', '']:
        k = len([h for h in names if h == c])
        got = [e for e in acc.of('DuplicateColumn') if e.header == c]
        I.check(len(got) == (1 if k > 1 else 0), 'duplicate header')
        if k > 1:
            I.check(got[0].count == k, 'count')
            I.cover('duplicate')
        miss = [e for e in acc.of('MissingColumn') if e.column_name == c]
        I.check(len(miss) == (1 if c in REQ and not k else 0),
                'missing required')
        if miss:
            I.cover('missing')
        dep = [e for e in acc.of('DeprecatedColumn') if e.column_name == c]
        I.check(len(dep) == (1 if k and c in ('ba', 'ab') else 0),
                'deprecated')
        if dep:
            I.check(('"b"' in dep[0].reason) if c == 'ba' else
                    dep[0].reason is None, 'replacement')
            I.cover('deprecated')


def known(h):
    return h in COLS or h in ('ba', 'ab')


def h_dict_header(I):
    raw = headers(I)
    ld, acc = reader(','.join(raw) + '\n' +
                     ','.join(['v%d' % i for i in range(len(raw))]) + '\n')
    got = rows_of(ld, 'dict')
    names, cells, spaced = [], [], 0
    for i, h in enumerate(raw):
        t = h.strip()
        if t == '':
            continue
        if h.endswith(' '):
            spaced += 1
        names.append(t)
        cells.append('v%d' % i)
    blank = len(raw) - len(names)
    common(I, acc, names)
    syn = acc.of('CsvSyntax')
    I.check(len([e for e in syn if e.GetType() == 1]) == spaced,
            'header with spaces')
    unknown = []
    for h in names:
        if not known(h) and h not in unknown:
            unknown.append(h)
    none = not [h for h in names if known(h)]
    # no known column name at all is reported as one syntax error, unless a
    # repeated unknown name makes the header longer than its set of names
    repeated = len(unknown) < len(names)
    err = len([e for e in syn if e.GetType() == 0])
    unrec = acc.of('UnrecognizedColumn')
    if none and not repeated:
        I.check(err == blank + 1 and not unrec, 'no known column')
        I.cover('nothing known')
    else:
        I.check(err == blank, 'blank header')
        I.check(len(unrec) == len(unknown), 'unknown headers')
        for h in unknown:
            I.check(len([e for e in unrec if e.column_name == h]) == 1,
                    'unknown header named')
            I.cover('unknown')
    if blank:
        I.cover('blank')
    if spaced:
        I.cover('spaces')
    I.check(len(got) == 1, 'one row')
    d, num, header, vals = got[0]
    I.check(num == 2 and header == names and vals == cells, 'row')
    for i, h in enumerate(names):
        if len([x for x in names if x == h]) == 1:
            I.check(d[h] == cells[i], 'cell under its header')
    I.check(len(d) == len(set(names)), 'no other cell')
    I.check(ld._schedule.GetTableColumns('t') == names, 'columns remembered')
    I.log('kinds', acc.kinds())
    if not acc.problems:
        I.cover('clean')
        I.check(len(names) == len(raw) and 'a' in names and 'bb' in names and
                not unknown, 'clean only if it is')


def h_tuple_header(I):
    raw = headers(I)
    ld, acc = reader(','.join(raw) + '\n' +
                     ','.join(['v%d' % i for i in range(len(raw))]) + '\n')
    got = rows_of(ld, 'tuple')
    names = [h.strip() for h in raw]
    common(I, acc, names)
    unknown = []
    for h in names:
        if not known(h) and h not in unknown:
            unknown.append(h)
    unrec = acc.of('UnrecognizedColumn')
    I.check(len(unrec) == len(unknown), 'unknown headers')
    for h in unknown:
        I.check(len([e for e in unrec if e.column_name == h]) == 1,
                'unknown header named')
        I.cover('unknown')
    I.check(len(acc.problems) == len(unrec) + acc.n(
        'DuplicateColumn', 'MissingColumn', 'DeprecatedColumn'), 'no other')
    I.check(len(got) == 1, 'one row')
    vals, num, cols = got[0]
    I.check(num == 2 and cols == COLS and len(vals) == len(COLS), 'row')
    for i, c in enumerate(COLS):
        k = len([h for h in names if h == c])
        if k == 0:
            I.check(vals[i] is None, 'absent column')
        elif k == 1:
            I.check(vals[i] == 'v%d' % names.index(c), 'cell')
    I.log('kinds', acc.kinds())
    if not acc.problems:
        I.cover('clean')
        I.check('a' in names and 'bb' in names and not unknown,
                'clean only if it is')


def rows(I, which):
    n = 2
    lines, want, long_, short = ['a,b,bb'][:1], [], [], []
    lines = ['a,bb']
    for i in range(I.b['rows']):
        k = I.choice('cells%d' % i, range(0, I.b['rowcols'] + 1))
        if k == 0:
            lines.append('')
            I.cover('empty line')
            continue
        cells = [I.str('c%d_%d' % (i, j), 1, 1, 'xyz') for j in range(k)]
        lines.append(','.join(cells))
        want.append((i + 2, cells))
        if k > n:
            long_.append(i + 2)
            I.cover('long')
        elif k < n:
            short.append(i + 2)
            I.cover('short')
        else:
            I.cover('even')
    ld, acc = reader('\n'.join(lines) + I.choice('end', ['\n', '']))
    got = rows_of(ld, which)
    I.check(len(got) == len(want), 'one record per row')
    for g, (num, cells) in zip(got, want):
        I.check(g[1] == num, 'line number')
        if which == 'dict':
            I.check(g[2] == ['a', 'bb'], 'header')
            vals = [g[0].get('a', ''), g[0].get('bb', '')]
            I.check(sorted(g[0]) == ['a', 'bb'][:len(cells)], 'columns')
        else:
            I.check(g[2] == COLS and g[0][1] is None, 'columns')
            vals = [g[0][0], g[0][2]]
        I.check(vals == (cells + [''])[:2], 'cells')
    seen = acc.of('OtherProblem')
    I.check(len(seen) == len(acc.problems), 'no other report')
    many = [e.row_num for e in seen if 'too many' in e.description]
    few = [e.row_num for e in seen if 'missing cells' in e.description]
    I.check(many == long_ and few == short, 'ragged rows reported')
    I.check(len(seen) == len(long_) + len(short), 'nothing else')
    for e in seen:
        I.check(e.GetType() == 1 and e.file_name == 't.txt' and
                ('line %d of' % e.row_num) in e.description, 'warning text')


def h_dict_rows(I):
    rows(I, 'dict')


def h_tuple_rows(I):
    rows(I, 'tuple')


def h_cells(I):
    """Cell texts are stripped, nothing else; quoting is undone."""
    which = I.choice('which', ['dict', 'tuple'])
    a = I.str('a', 0, 3, 'x \t')
    b = I.str('b', 0, 3, 'x, ')
    b2 = b
    text = 'a,bb\n' + a + ',"' + b + '"\n' + 'p,q\n'
    ld, acc = reader(text)
    got = rows_of(ld, which)
    I.check(not acc.problems and len(got) == 2, 'clean')
    if which == 'dict':
        va, vb = got[0][0]['a'], got[0][0]['bb']
        wa, wb = got[1][0]['a'], got[1][0]['bb']
    else:
        va, vb = got[0][0][0], got[0][0][2]
        wa, wb = got[1][0][0], got[1][0][2]
    I.log('a', va)
    I.log('b', vb)
    I.check(va == a.strip(), 'stripped')
    I.check(vb == b2.strip(), 'quoted cell')
    I.check(wa == 'p' and wb == 'q', 'next row')
    I.cover('cell')
