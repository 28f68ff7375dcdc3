"""C42: unusual trips are exactly those with rare stop patterns."""
import hlib
BOUNDS = {'quick': {'trips': 5}, 'thorough': {'trips': 7}}
COVERS = {'h_mark': ['rare', 'common', 'forced', 'kept'],
          'h_types': ['filtered', 'skipped'],
          'h_visits': ['same', 'different']}
SECONDS = {'quick': 400, 'thorough': 3000}
ASSUMPTIONS = ['stop sequences hash apart']


def trip(s, route, sp, stops, i, ks):
    t = route.AddTrip(s, 'head', sp, 'T%d' % i)
    for k, j in enumerate(ks):
        hlib.put(s, t, stops[j], k + 1, arrival_secs=60 * k,
                 departure_secs=60 * k)
    return t


def h_mark(I):
    """Rare patterns are marked; others only when forced."""
    ut = I.load('unusual_trip_filter')
    s, r, acc, route, sp, stops = hlib.basic(3)
    n = I.concrete(I.int('n', 1, I.b['trips']))
    shapes = [(0, 1), (1, 0), (0, 1, 2), ()]
    trips = []
    for i in range(n):
        ks = shapes[I.concrete(I.int('p%d' % i, 0, min(i, 3)))]
        t = trip(s, route, sp, stops, i, ks)
        old = None
        if i < 2:
            old = I.choice('old%d' % i, [None, '1', '0'])
        if old is not None:
            t.trip_type = old
        trips.append((t, ks, old))
    limit = I.real('limit', 0, 1, 64)
    force = bool(I.flag('force'))
    ut.UnusualTripFilter(limit, force=force, quiet=True).filter(s)
    for t, ks, old in trips:
        k = len([x for x in trips if x[1] == ks])
        rare = bool(k < limit * n)
        got = t['trip_type']
        if rare:
            I.check(str(got) == '1', 'a rare pattern is special')
            I.cover('rare')
        elif force:
            I.check(str(got) == '0', 'a common one is regular')
            I.cover('forced')
        else:
            I.check((got or None) == old, 'otherwise left alone')
            I.cover('common' if old is None else 'kept')


def h_types(I):
    """Only routes of the type asked for, each by its own trips."""
    ut = I.load('unusual_trip_filter')
    s, r, acc, route, sp, stops = hlib.basic(2)
    other = s.AddRoute('2', 'Two', 'Tram', 'R2')
    route.route_type = I.choice('type', [0, 1, 3])
    all_ = []
    for k, ro in enumerate((route, other)):
        for i in range(3):
            all_.append((trip(s, ro, sp, stops, 10 * k + i,
                              (0, 1) if i else (1, 0)), ro, i == 0))
    want = I.choice('want', [None, 'Tram', 'Subway', '3', 0, '0'])
    code = {None: None, 'Tram': 0, 'Subway': 1, '3': 3, 0: 0, '0': 0}[want]
    limit = I.real('limit', 0, 1, 16)
    ut.UnusualTripFilter(limit, quiet=True, route_type=want).filter(s)
    for t, ro, odd in all_:
        mine = code is None or ro.route_type == code
        rare = mine and bool((1 if odd else 2) < 3 * limit)
        I.check(str(t['trip_type'] or '') == ('1' if rare else ''),
                'marked iff rare on a route asked for')
        I.cover('filtered' if mine else 'skipped')


def h_visits(I):
    """A pattern is the stops in order, whatever the times."""
    s, r, acc, route, sp, stops = hlib.basic(2)
    trips = []
    for i in range(2):
        t = route.AddTrip(s, 'head', sp, 'T%d' % i)
        n = I.concrete(I.int('n%d' % i, 0, 3))
        ks = [I.concrete(I.int('k%d%d' % (i, j), 0, 1)) for j in range(n)]
        at = I.int('t%d' % i, 0, 99)
        for j, k in enumerate(ks):
            hlib.put(s, t, stops[k], 3 * j + i, arrival_secs=at + 60 * j,
                     departure_secs=at + 60 * j)
        trips.append((t, ks))
    same = trips[0][1] == trips[1][1]
    d = route.GetPatternIdTripDict()
    I.check(len(d) == (1 if same else 2), 'one group iff the same stops')
    I.check((trips[0][0].pattern_id == trips[1][0].pattern_id) == same,
            'pattern ids agree')
    for t, ks in trips:
        I.check([t is x for x in d[t.pattern_id]].count(True) == 1,
                'in its group')
        I.check([x.stop_id for x in t.GetPattern()] ==
                ['ST%d' % k for k in ks], 'its stops in order')
    I.cover('same' if same else 'different')
