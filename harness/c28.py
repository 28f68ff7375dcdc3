"""C28: route records."""
import hlib
BOUNDS = {'quick': {'short': 2, 'long': 4, 'routes': 3, 'both': []},
          'thorough': {'short': 2, 'long': 5, 'routes': 4,
                       'both': ['both']}}
COVERS = {'h_names': ['clean', 'both blank', 'contained', 'equal'],
          'h_length': ['clean', 'long'],
          'h_desc': ['clean', 'same'],
          'h_type': ['clean', 'missing', 'unknown', 'not a number'],
          'h_colour': ['clean', 'route_color', 'route_text_color'],
          'h_contrast': ['clean', 'too similar'],
          'h_fields': ['clean', 'route_id', 'route_url', 'bikes_allowed'],
          'h_clash': ['clean', 'clash']}


def clean(**kw):
    from transitfeed import route
    d = dict(route_id='R', route_short_name='1', route_long_name='Main',
             route_type=3)
    d.update(kw)
    for k in list(d):
        if d[k] is None:
            del d[k]
    return route.Route(field_dict=d)


def h_names(I):
    r, acc = hlib.reporter()
    a = I.str('short', 0, I.b['short'], 'aA ')
    b = I.str('long', 0, I.b['long'], 'aA (-b')
    x = clean(route_short_name=a, route_long_name=b)
    got = x.ValidateBeforeAdd(r)
    I.check(got == True, 'never blocking')
    p, q = a.strip().lower(), b.strip().lower()
    blank = p == '' and q == ''
    I.log('kinds', acc.kinds())
    e = acc.on('route_short_name')
    I.check(len(e) == (1 if blank else 0), 'both blank')
    I.check(not e or e[0].GetType() == 0, 'error')
    eq = has = False
    if not a == '' and not b == '':
        eq = bool(p == q)
        n = len(p)
        has = len(q) > n and q[:n] == p and (
            q[n:n + 1] == ' ' or q[n:n + 1] == '(' or q[n:n + 1] == '-')
    e = acc.on('route_long_name')
    I.check(len(e) == (1 if eq or has else 0), 'long name')
    I.check(not [k for k in e if k.GetType() != 1], 'warning')
    I.check(len(acc.problems) == (1 if blank else 0) + len(e),
            'nothing else')
    I.cover('both blank' if blank else 'equal' if eq else
            'contained' if has else 'clean')


def h_length(I):
    r, acc = hlib.reporter()
    n = I.choice('n', range(4, 10))
    a = I.str('short', n, n, 'aZ 1')
    x = clean(route_short_name=a, route_long_name='Main')
    x.ValidateBeforeAdd(r)
    e = [k for k in acc.on('route_short_name')]
    I.check(len(e) == (1 if n > 6 else 0), 'too long')
    I.check(not e or (e[0].GetType() == 1 and e[0].value == a), 'warning')
    I.check(len(acc.problems) == len(e), 'nothing else')
    I.cover('long' if e else 'clean')


def h_desc(I):
    r, acc = hlib.reporter()
    a = I.str('short', 0, 1, 'ab')
    b = I.str('long', 0, 2, 'bc')
    c = I.str('desc', 0, 2, 'abc ')
    x = clean(route_short_name=a, route_long_name=b, route_desc=c)
    x.ValidateBeforeAdd(r)
    same = I.And(I.Not(c == ''), I.Or(c == a, c == b))
    e = acc.on('route_desc')
    I.check(I.Iff(same, len(e) == 1), 'same')
    I.check(len(e) <= 1, 'once')
    I.cover('same' if e else 'clean')


def h_type(I):
    r, acc = hlib.reporter()
    how = I.choice('how', ['int', 'text', 'name', 'absent'])
    if how == 'int':
        v = I.int('v', -3, 20)
        x = clean(route_type=v)
        plain = True
    elif how == 'text':
        t = I.str('t', 0, 2, '0378- x')
        v, plain = number(t)
        x = clean(route_type=t)
    elif how == 'name':
        from transitfeed import route
        k = I.choice('k', range(8))
        x = route.Route('1', 'Main', ['Tram', 'Subway', 'Rail', 'Bus',
                                      'Ferry', 'Cable Car', 'Gondola',
                                      'Funicular'][k], 'R')
        I.check(x.route_type == k, 'type of the name')
        v, plain = k, True
    else:
        x = clean(route_type=None)
        v, plain = None, True
        t = ''
    x.ValidateBeforeAdd(r)
    e = acc.on('route_type')
    I.log('kinds', acc.kinds())
    I.check(len(acc.problems) == len(e) + acc.n(
        'InvalidNonNegativeIntegerValue'), 'nothing else')
    if v is None:
        if t.strip() == '':
            I.check(acc.n('MissingValue') == 1, 'missing')
            I.cover('missing')
        else:
            I.check(len(e) == 1 and e[0].GetType() == 0 and
                    e[0].value == t, 'not a number')
            I.cover('not a number')
        return
    known = I.And(v >= 0, v <= 7)
    I.check(I.Iff(known, len(e) == 0), 'known type')
    I.check(len(e) <= 1, 'once')
    I.check(acc.n('InvalidNonNegativeIntegerValue') == (0 if plain else 1),
            'flagged')
    I.check(x.route_type == v, 'value')
    for k in e:
        I.check(k.GetType() == 1, 'warning')
        I.cover('unknown')
    if not acc.problems:
        I.cover('clean')


def number(t):
    n = len(t)
    t = t.strip()
    plain = len(t) == n
    if t[:1] == '-':
        # only minus zero is not negative
        if t[1:] == '0':
            return 0, False
        return None, False
    v = 0
    for i in range(len(t)):
        d = None
        for j in (0, 3, 7, 8):
            if t[i:i + 1] == '%d' % j:
                d = j
        if d is None:
            return None, False
        v = v * 10 + d
    if not len(t):
        return None, False
    if len(t) > 1 and t[:1] == '0':
        plain = False
    return v, plain


HEX = '0123456789abcdef'


def lum(I, t):
    """Luminance times 1000 of six hex digits."""
    v = []
    for i in range(6):
        c = ord(t[i:i + 1])
        v.append(I.ite(c < 58, c - 48, I.ite(c < 71, c - 55, c - 87)))
    return (299 * (16 * v[0] + v[1]) + 587 * (16 * v[2] + v[3]) +
            114 * (16 * v[4] + v[5]))


def h_contrast(I):
    """Both, one or no colour given."""
    r, acc = hlib.reporter()
    sym = I.choice('symbolic', ['colour', 'text'] + I.b['both'])
    digits = '0123456789abcdefABCDEF' if sym != 'both' else '08f'
    fixed = [None, '', '808080', 'Ff0000', '0000FF']
    a = I.choice('no colour', fixed) if sym == 'text' else \
        I.str('colour', 6, 6, digits)
    b = I.choice('no text', fixed) if sym == 'colour' else \
        I.str('text', 6, 6, digits)
    x = clean(route_color=a, route_text_color=b)
    x.ValidateBeforeAdd(r)
    d = lum(I, a or 'ffffff') - lum(I, b or '000000')
    near = I.And(7 * d < 510000, -7 * d < 510000)
    I.check(I.Iff(near, len(acc.problems) == 1), 'too similar')
    I.check(len(acc.problems) <= 1, 'once')
    for e in acc.problems:
        I.check(e.column_name == 'route_color' and e.GetType() == 1 and
                (e.value == a or (not a and not e.value)), 'warning')
    I.cover('too similar' if acc.problems else 'clean')


def h_colour(I):
    r, acc = hlib.reporter()
    col = I.choice('col', ['route_color', 'route_text_color'])
    n = I.choice('n', [1, 3, 5, 6, 7])
    t = I.str('t', n, n, '9fFgG#/ ')
    ok = n == 6 and I.all([I.any([t[i:i + 1] == c for c in '9fF'])
                           for i in range(6)])
    x = clean(**{col: t})
    x.ValidateBeforeAdd(r)
    bad = [e for e in acc.on(col) if e.GetType() == 0]
    I.check(I.Iff(ok, len(bad) == 0), 'reported iff wrong')
    I.check(len(bad) <= 1, 'once')
    if bad:
        I.check(bad[0].value == t, 'value')
        I.check(len(acc.problems) == 1, 'the default colour is used')
        I.check(getattr(x, col) is None, 'colour dropped')
        I.cover(col)
    else:
        I.cover('clean')


def h_fields(I):
    """Every check applies whatever else is wrong."""
    r, acc = hlib.reporter()
    rid = I.choice('id', ['R', '', ' ', None])
    url = I.choice('url', [None, '', 'http://a', 'ftp://a'])
    bikes = I.choice('bikes', [None, '', '0', '2', '3'])
    short = I.choice('short', ['1', None, '1234567'])
    ty = I.choice('type', ['3', '', '9'])
    colour = I.choice('colour', [None, 'zz', '000000'])
    x = clean(route_id=rid, route_url=url, bikes_allowed=bikes,
              route_short_name=short, route_type=ty, route_color=colour,
              route_long_name='Main' if short else None)
    x.ValidateBeforeAdd(r)
    want = []
    if rid != 'R':
        want.append(('MissingValue', 'route_id', 0))
    if url == 'ftp://a':
        want.append(('InvalidValue', 'route_url', 0))
    if bikes == '3':
        want.append(('InvalidValue', 'bikes_allowed', 0))
    if short is None:
        want.append(('InvalidValue', 'route_short_name', 0))
    elif len(short) > 6:
        want.append(('InvalidValue', 'route_short_name', 1))
    if ty == '9':
        want.append(('InvalidValue', 'route_type', 1))
    if colour == 'zz':
        want.append(('InvalidValue', 'route_color', 0))
    elif colour:
        want.append(('InvalidValue', 'route_color', 1))
    got = acc.kinds()
    if ty == '':
        # missing, and perhaps unreadable as well
        I.check(('MissingValue', 'route_type', 0) in got, 'type missing')
        got = [k for k in got if k[1] != 'route_type']
    I.check(got == sorted(want), 'reports')
    I.cover(want[0][1] if want else 'clean')


def h_clash(I):
    s, r, acc = hlib.schedule()
    s.AddAgency('A', 'http://a.example', 'America/Los_Angeles', 'AG')
    from transitfeed import route
    n = I.choice('n', range(2, I.b['routes'] + 1))
    names = []
    for i in range(n):
        a = I.str('short%d' % i, 0, 2 if i < 2 else 1, 'aA ' if i < 2
                  else 'a')
        b = I.str('long%d' % i, 0, 1, 'aX')
        s.AddRouteObject(route.Route(field_dict={
            'route_id': 'R%d' % i, 'route_short_name': a,
            'route_long_name': b, 'route_type': 3}), r)
        names.append((a.strip().lower(), b.strip().lower()))
    acc.clear()
    s.ValidateRouteNames(r, False)
    want = 0
    for i in range(n):
        if [j for j in range(i) if names[j][0] == names[i][0] and
                names[j][1] == names[i][1]]:
            want += 1
    I.check(len(acc.problems) == want, 'clashes')
    I.check(not [e for e in acc.problems if e.column_name !=
                 'route_long_name' or e.GetType() != 1], 'warning')
    I.cover('clash' if want else 'clean')
