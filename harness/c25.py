"""C25: stop records."""
import hlib
BOUNDS = {'quick': {'len': 2, 'lat': 3}, 'thorough': {'len': 3, 'lat': 4}}
COVERS = {'h_place': ['clean', 'stop_lat', 'stop_lon', 'origin'],
          'h_text_place': ['number', 'flagged', 'not a number', 'missing'],
          'h_names': ['clean', 'same', 'missing'],
          'h_parent': ['clean', 'station with parent', 'time zone',
                       'location_type', 'unknown type'],
          'h_missing': ['clean', 'missing']}


def h_place(I):
    from transitfeed import stop
    r, acc = hlib.reporter()
    if I.flag('int'):
        lat = I.int('ilat', -200, 200)
        lon = I.int('ilon', -200, 200)
    else:
        lat = I.real('lat', -200, 200, 8)
        lon = I.real('lon', -200, 200, 8)
    s = stop.Stop(lat, lon, 'N', 'S')
    got = s.ValidateBeforeAdd(r)
    a = acc.on('stop_lat')
    b = acc.on('stop_lon')
    bad = [e for e in a if e.GetType() == 0]
    warn = [e for e in a if e.GetType() == 1]
    I.check(I.Iff(I.Or(lat > 90, lat < -90), len(bad) == 1), 'latitude')
    I.check(I.Iff(I.Or(lon > 180, lon < -180), len(b) == 1), 'longitude')
    near = I.And(lat > -1, lat < 1, lon > -1, lon < 1)
    I.check(I.Iff(near, len(warn) == 1), 'origin')
    I.check(len(bad) <= 1 and len(b) <= 1 and len(warn) <= 1, 'once')
    I.check(len(acc.problems) == len(a) + len(b), 'nothing else')
    I.check(not [e for e in b if e.GetType() != 0], 'longitude is an error')
    I.check(not [e for e in acc.problems
                 if e.__class__.__name__ != 'InvalidValue'], 'kind')
    for e in bad:
        I.check(e.value == lat, 'value')
    for e in b:
        I.check(e.value == lon, 'value')
    I.check(I.And(s.stop_lat == lat, s.stop_lon == lon), 'kept')
    for name, l in (('stop_lat', bad), ('stop_lon', b), ('origin', warn)):
        if l:
            I.cover(name)
    if not acc.problems:
        I.cover('clean')


def h_text_place(I):
    """Places given as texts, as the loader does."""
    from transitfeed import stop
    r, acc = hlib.reporter()
    col = I.choice('col', ['stop_lat', 'stop_lon'])
    t = I.str('text', 0, I.b['lat'], '019.- x')
    row = {'stop_id': 'S', 'stop_name': 'N', 'stop_lat': '20', 'stop_lon':
           '20'}
    row[col] = t
    s = stop.Stop(field_dict=row)
    s.ValidateBeforeAdd(r)
    other = acc.on('stop_lon' if col == 'stop_lat' else 'stop_lat')
    I.check(not other, 'the other one is fine')
    v = value(t)
    got = acc.on(col)
    I.log('kinds', acc.kinds())
    I.check(I.Iff(t.strip() == '', bool([
        e for e in got if e.__class__.__name__ == 'MissingValue'])),
        'missing')
    if v is None:
        I.check(len(got) == 1 and getattr(s, col) is None, 'no value left')
        if t.strip() == '':
            I.cover('missing')
        else:
            I.check(got[0].__class__.__name__ == 'InvalidValue' and
                    got[0].value == t and got[0].GetType() == 0, 'error')
            I.cover('not a number')
        return
    v, k, plain = v
    I.check(getattr(s, col) * 10 ** k == v, 'value')
    top = (90 if col == 'stop_lat' else 180) * 10 ** k
    want = 1 if v > top or v < -top else 0
    I.check(len([e for e in got if e.__class__.__name__ == 'InvalidValue'])
            == want, 'range')
    odd = acc.of('InvalidFloatValue')
    I.check(len(odd) == (0 if plain else 1), 'flagged iff unusual')
    I.check(len(acc.problems) == want + len(odd), 'nothing else')
    I.cover('flagged' if odd else 'number')


def value(t):
    """(number, decimals, plain) of a decimal text or None."""
    n = len(t)
    t = t.strip()
    plain = len(t) == n
    neg = False
    if t[:1] == '-':
        neg, t = True, t[1:]
    v = k = whole = frac = 0
    dot = False
    for i in range(len(t)):
        c = t[i:i + 1]
        if c == '.':
            if dot:
                return None
            dot = True
            continue
        d = None
        for j in (0, 1, 9):
            if c == '%d' % j:
                d = j
        if d is None:
            return None
        v = v * 10 + d
        if dot:
            frac += 1
        else:
            whole += 1
    if not whole + frac:
        return None
    if dot and not (whole and frac):
        plain = False
    return (-v if neg else v), frac, plain


def h_names(I):
    from transitfeed import stop
    r, acc = hlib.reporter()
    name = I.str('name', 0, I.b['len'], 'aAb ')
    desc = I.str('desc', 0, I.b['len'], 'aAb ') if I.flag('described') \
        else None
    s = stop.Stop(20.0, 20.0, name, 'S')
    if desc is not None:
        s.stop_desc = desc
    s.ValidateBeforeAdd(r)
    blank = name.strip() == ''
    I.check(I.Iff(blank, len(acc.of('MissingValue')) == 1), 'missing')
    same = desc is not None and not blank and \
        name.strip().lower() == desc.strip().lower()
    got = acc.on('stop_desc')
    I.check(len(got) == (1 if same else 0), 'same')
    I.check(not got or got[0].GetType() == 1, 'warning')
    I.check(len(acc.problems) == (1 if blank or same else 0), 'nothing else')
    I.cover('missing' if blank else 'same' if same else 'clean')


def h_missing(I):
    from transitfeed import stop
    r, acc = hlib.reporter()
    vals = {}
    for k, v in (('stop_id', 'S'), ('stop_name', 'N'), ('stop_lat', '20.0'),
                 ('stop_lon', '20.0')):
        w = I.choice(k, ['given', 'absent', 'empty', 'blank'])
        if w == 'given':
            vals[k] = v
        elif w != 'absent':
            vals[k] = '' if w == 'empty' else '  '
    if not vals:
        return
    s = stop.Stop(field_dict=dict(vals))
    s.ValidateBeforeAdd(r)
    want = [k for k in ('stop_id', 'stop_name', 'stop_lat', 'stop_lon')
            if not vals.get(k, '').strip()]
    I.check(sorted([e.column_name for e in acc.of('MissingValue')]) ==
            sorted(want), 'missing')
    I.check(len(acc.problems) == len(want), 'nothing else')
    I.cover('missing' if want else 'clean')


def h_parent(I):
    from transitfeed import stop
    r, acc = hlib.reporter()
    s = stop.Stop(20.0, 20.0, 'N', 'S')
    p = I.choice('parent', [None, '', 'P'])
    if p is not None:
        s.parent_station = p
    z = I.choice('zone', [None, '', ' ', 'America/Los_Angeles'])
    if z is not None:
        s.stop_timezone = z
    kind = I.choice('kind', ['text', 'int', 'absent'])
    ty = 0
    if kind == 'text':
        t = I.str('type', 0, 2, '0145-x')
        s.location_type = t
        ty = number(t)
    elif kind == 'int':
        ty = I.int('itype', -2, 9)
        s.location_type = ty
    s.ValidateBeforeAdd(r)
    got = acc.on('location_type')
    I.log('kinds', acc.kinds())
    if ty is None:
        I.check(len(got) == 1 and got[0].GetType() == 0 and
                got[0].value == t, 'unreadable type')
        I.check(s.location_type == 0, 'default type')
        ty = 0
        I.cover('location_type')
    else:
        I.check(I.Iff(I.Or(ty < 0, ty > 4), len(got) == 1), 'unknown type')
        I.check(not got or got[0].GetType() == 1, 'warning')
        I.check(s.location_type == ty, 'type kept')
        if got:
            I.cover('unknown type')
    par = [e for e in acc.on('parent_station')]
    I.check(I.Iff(I.And(ty == 1, p == 'P'), len(par) == 1),
            'station with parent')
    I.check(not par or par[0].GetType() == 0, 'error')
    tz = acc.on('stop_timezone')
    I.check(len(tz) == (1 if p == 'P' and z and z.strip() else 0),
            'time zone')
    I.check(not tz or tz[0].GetType() == 1, 'warning')
    I.check(len(acc.problems) == len(got) + len(par) + len(tz),
            'nothing else')
    if par:
        I.cover('station with parent')
    if tz:
        I.cover('time zone')
    if not acc.problems:
        I.cover('clean')


def number(t):
    if t == '':
        return 0
    neg = False
    if t[:1] == '-':
        neg, t = True, t[1:]
    v = 0
    if len(t) == 0:
        return None
    for i in range(len(t)):
        d = None
        for j in (0, 1, 4, 5):
            if t[i:i + 1] == '%d' % j:
                d = j
        if d is None:
            return None
        v = v * 10 + d
    return -v if neg else v
