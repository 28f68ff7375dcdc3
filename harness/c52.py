"""C52: trips without stops, repeated trips, mixed stops, unused shapes."""
import datetime
import hlib
BOUNDS = {'quick': {'trips': 3, 'stops': 3, 'shapes': 3},
          'thorough': {'trips': 4, 'stops': 3, 'shapes': 4}}
COVERS = {'h_short': ['none', 'one', 'enough', 'frequency'],
          'h_repeats': ['repeat', 'different', 'off'],
          'h_mixed': ['mixed', 'one kind'],
          'h_shapes': ['all used', 'unused'],
          'h_ends': ['both', 'first missing', 'last missing'],
          'h_whole': ['clean', 'report']}
TODAY = (2010, 6, 1)


def h_short(I):
    """Trips with no stop, one stop, or more."""
    s, r, acc, route, sp, stops = hlib.basic(3)
    n = I.choice('n', range(1, I.b['trips'] + 1))
    counts, freq = [], []
    for k in range(n):
        t = route.AddTrip(s, 'h', sp, 'T%d' % k)
        c = I.choice('c%d' % k, [0, 1, 2, 3])
        for j in range(c):
            hlib.put(s, t, stops[j], 10 + 7 * j, arrival_secs=36000 + 600 * j,
                     departure_secs=36000 + 600 * j)
        f = c < 2 and I.flag('f%d' % k)
        if f:
            t.AddFrequency('08:00:00', '09:00:00', 600)
        counts.append(c)
        freq.append(f)
    acc.clear()
    s.ValidateTripStopTimes(r)
    got = [(e.description, e.IsWarning()) for e in acc.of('OtherProblem')]
    I.log('n', len(got))
    total = 0
    for k in range(n):
        mine = [g for g in got if 'T%d' % k in g[0]]
        total += len(mine)
        if counts[k] == 0:
            none = [g for g in mine if "any stop times" in g[0]]
            I.check(len(none) == 1 and none[0][1], 'no stops is warned about')
            rest = [g for g in mine if g not in none]
            if freq[k]:
                I.check(len(rest) == 1 and not rest[0][1] and
                        'Frequencies' in rest[0][0], 'frequencies alone')
                I.cover('frequency')
            else:
                I.check(not rest, 'no stops, other report')
                I.cover('none')
        elif counts[k] == 1:
            I.check(len(mine) == 1 and mine[0][1] and
                    'only has one' in mine[0][0], 'one stop is warned about')
            I.cover('one')
        else:
            I.check(not mine, 'enough stops')
            I.cover('enough')
    I.check(total == len(got), 'other reports')


def h_ends(I):
    """Trips whose first or last stop has no time."""
    s, r, acc, route, sp, stops = hlib.basic(3)
    want = []
    for k in range(2):
        t = route.AddTrip(s, 'h', sp, 'T%d' % k)
        n = 3 if k == 0 else I.choice('n', [2, 3])
        base = I.int('base%d' % k, 20000, 50000)
        for j in range(n):
            kw = {}
            timed = I.flag('t%d%d' % (k, j)) if j in (0, n - 1) else True
            if timed:
                kw = {'arrival_secs': base + 9000 * j,
                      'departure_secs': base + 9000 * j}
            else:
                want.append((k, j == 0))
            hlib.put(s, t, stops[j], 10 + 7 * j, **kw)
    acc.clear()
    s.ValidateTripStopTimes(r)
    got = acc.of('InvalidValue')
    I.check(len(got) == len(want) and len(acc.problems) == len(got),
            'as many reports')
    for k, first in want:
        mine = [e for e in got if 'T%d ' % k in e.reason and
                ('first' if first else 'last') in e.reason]
        I.check(len(mine) == 1 and mine[0].GetType() == 0 and
                mine[0].column_name == ('departure_time' if first else
                                        'arrival_time'), 'missing end')
        I.cover('first missing' if first else 'last missing')
    if not want:
        I.cover('both')


def h_repeats(I):
    """Same service, stops and start: a repeated trip."""
    check = I.flag('check')
    s, r, acc, route, sp, stops = hlib.basic(
        I.b['stops'], check_duplicate_trips=check)
    other = s.NewDefaultServicePeriod() if I.flag('two') else None
    if other:
        other.SetStartDate('20100101')
        other.SetEndDate('20101231')
        other.SetWeekdayService(True)
    route2 = s.AddRoute('2', 'Two', 'Bus', 'R2')
    n = I.b['trips']
    keys = []
    for k in range(n):
        svc = other if other and I.flag('svc%d' % k) else sp
        rt = route2 if k == 1 else route
        t = rt.AddTrip(s, 'h', svc, 'T%d' % k)
        at = I.int('at%d' % k, 28800, 28803)
        pat = I.choice('pat%d' % k, [[0, 1], [1, 0], [0, 1, 2]])
        for j, p in enumerate(pat):
            hlib.put(s, t, stops[p], j + 1 + k,
                     arrival_secs=at + (600 + k) * j,
                     departure_secs=at + (600 + k) * j + 10 * k)
        keys.append((svc.service_id, pat, at, t.route_id))
    acc.clear()
    s.ValidateTrips(r)
    got = acc.of('DuplicateTrip')
    I.check(len(got) == len(acc.problems), 'other reports')

    def same(a, b):
        if keys[a][:2] != keys[b][:2]:
            return False
        return keys[a][2] == keys[b][2]
    firsts = I.count([I.Not(I.any([same(b, a) for b in range(a)]))
                      for a in range(n)])
    if not check:
        I.check(not got, 'reported though not asked')
        I.cover('off')
        return
    I.check(len(got) == n - firsts, 'one report per repeat')
    pairs = []
    for e in got:
        a, b = int(e.trip_id1[1:]), int(e.trip_id2[1:])
        pairs.append((a, b))
        I.check(a != b, 'a trip repeats itself')
        I.check(same(a, b), 'reported trips differ')
        I.check(e.route_id1 == keys[a][3] and e.route_id2 == keys[b][3],
                'routes')
        I.check(e.IsWarning(), 'severity')
    I.check(len(set([b for a, b in pairs])) == len(pairs),
            'a repeat reported twice')
    I.check(not set([a for a, b in pairs]) & set([b for a, b in pairs]),
            'a repeat taken for a first')
    I.cover('repeat' if got else 'different')


def h_mixed(I):
    """A stop on both bus and subway trips."""
    s, r, acc, route, sp, stops = hlib.basic(I.b['stops'])
    n = I.b['trips']
    kinds = []
    uses = []
    for k in range(n):
        kind = I.choice('kind%d' % k, [1, 3, 0])
        rt = s.AddRoute('%d' % (k + 2), 'L%d' % k, 'Bus', 'Q%d' % k)
        rt.route_type = kind
        t = rt.AddTrip(s, 'h', sp, 'T%d' % k)
        pat = I.choice('pat%d' % k, [[0, 1], [1, 2], [0, 2, 0]])
        for j, p in enumerate(pat):
            hlib.put(s, t, stops[p], j, arrival_secs=36000 + 600 * j,
                     departure_secs=36000 + 600 * j)
        kinds.append(kind)
        uses.append(pat)
    acc.clear()
    s.ValidateTrips(r)
    got = acc.of('StopWithMultipleRouteTypes')
    I.check(len(got) == len(acc.problems), 'other reports')
    I.log('n', len(got))
    for p in range(I.b['stops']):
        here = [k for k in range(n) if p in uses[k]]
        sub = ['Q%d' % k for k in here if kinds[k] == 1]
        bus = ['Q%d' % k for k in here if kinds[k] == 3]
        mine = [e for e in got if e.stop_id == 'ST%d' % p]
        I.check(len(mine) == (1 if sub and bus else 0), 'mixed stop')
        for e in mine:
            I.check(e.stop_name == 'stop%d' % p, 'name')
            I.check(e.route_id1 in sub and e.route_id2 in bus, 'routes')
            I.check(e.IsWarning(), 'severity')
    I.cover('mixed' if got else 'one kind')


def h_shapes(I):
    """Shapes no trip uses."""
    from transitfeed import shape
    s, r, acc, route, sp, stops = hlib.basic(2)
    ns = I.choice('ns', range(I.b['shapes'] + 1))
    for k in range(ns):
        x = shape.Shape('SH%d' % k)
        x.AddPoint(10.0 + k, 20.0, 0)
        x.AddPoint(10.1 + k, 20.0, 1)
        s.AddShapeObject(x)
    used = set()
    for k in range(2):
        t = route.AddTrip(s, 'h', sp, 'T%d' % k)
        w = I.choice('w%d' % k, [None, ''] + list(range(ns)))
        if w in (None, ''):
            t.shape_id = w
        else:
            t.shape_id = 'SH%d' % w
            used.add(w)
    acc.clear()
    s.ValidateUnusedShapes(r)
    free = [k for k in range(ns) if k not in used]
    got = acc.of('OtherProblem')
    I.check(len(got) == len(acc.problems), 'other reports')
    I.check(len(got) == (1 if free else 0), 'reported iff unused')
    for e in got:
        I.check(e.IsWarning(), 'severity')
        named = [w.strip(',') for w in e.description.split()]
        for k in range(ns):
            I.check(('SH%d' % k in named) == (k in free), 'the unused are '
                    'named')
    I.cover('unused' if got else 'all used')


def h_whole(I):
    """Each of these as part of a whole validation."""
    from transitfeed import shape
    s, r, acc, route, sp, stops = hlib.basic(2, check_duplicate_trips=True)
    tube = s.AddRoute('9', 'Nine', 'Subway', 'U')
    what = I.choice('what', ['clean', 'none', 'one', 'repeat', 'mixed',
                             'shape'])
    at = I.int('at', 30000, 80000)
    gap = I.int('gap', 0, 3)

    def trip(rt, tid, n, start):
        t = rt.AddTrip(s, 'h', sp, tid)
        for j in range(n):
            hlib.put(s, t, stops[j], j + 1, arrival_secs=start + 20000 * j,
                     departure_secs=start + 20000 * j)
        return t
    trip(route, 'T0', 2, at)
    if what == 'none':
        trip(route, 'T1', 0, at)
    elif what == 'one':
        trip(route, 'T1', 1, at)
    elif what == 'mixed':
        trip(tube, 'T1', 2, at + 7)
    elif what == 'shape':
        x = shape.Shape('SH')
        x.AddPoint(10.0, 20.0, 0)
        x.AddPoint(10.1, 20.0, 1)
        s.AddShapeObject(x)
    else:
        trip(route, 'T1', 2, at + gap)
    acc.clear()
    s.Validate(r, today=datetime.date(2010, 6, 1))
    kinds = [k[0] for k in acc.kinds()]
    I.log('kinds', kinds)
    kinds = [k for k in kinds if k != 'NoServiceExceptions']
    if what in ('clean', 'repeat'):
        I.check(I.Iff(gap == 0, kinds == ['DuplicateTrip']), 'repeat')
        I.check(I.Iff(I.Not(gap == 0), kinds == []), 'clean')
        I.cover('report' if kinds else 'clean')
        return
    want = {'none': ['OtherProblem'], 'one': ['OtherProblem'],
            'mixed': ['StopWithMultipleRouteTypes',
                      'StopWithMultipleRouteTypes'],
            'shape': ['OtherProblem']}[what]
    I.check(kinds == want, what)
    I.cover('report')
