"""C40: the viewer's answers about stops, trips and patterns."""
import hlib
BOUNDS = {'quick': {'trips': 2, 'stops': 3, 'text': 2},
          'thorough': {'trips': 3, 'stops': 3, 'text': 3}}
COVERS = {'h_stoptrips': ['departures', 'none', 'interpolated', 'twice'],
          'h_limit': ['cut', 'all', 'dated'],
          'h_names': ['stop headsign', 'trip headsign', 'no headsign'],
          'h_patterns': ['one pattern', 'two patterns', 'dated', 'untimed'],
          'h_sample': ['few', 'later', 'last'],
          'h_trip': ['shape', 'stops', 'color', 'unknown'],
          'h_search': ['found', 'none'],
          'h_rows': ['sorted', 'row'],
          'h_edit': ['moved']}
SECONDS = {'quick': 600, 'thorough': 3000}
ASSUMPTIONS = ['stop sequences hash apart; no two trips of different '
               'patterns share a pattern id by accident']
MONDAY, SUNDAY = '20100104', '20100103'


def viewer(I, s, name='schedule_viewer'):
    sv = I.load(name)
    base = (sv.ScheduleRequestHandler if name == 'schedule_viewer' else
            sv.LocationEditorRequestHandler)
    errors = []

    class Box(object):
        pass

    class H(base):
        def __init__(self):
            self.server = Box()
            self.server.schedule = s
            self.server.feed_path = ''

        def send_error(self, code, message=None):
            errors.append(code)
    h = H()
    h.errors = errors
    return h


def weekend(s):
    sp = s.GetDefaultServicePeriod().__class__('WE')
    sp.SetStartDate('20100101')
    sp.SetEndDate('20101231')
    sp.SetWeekendService(True)
    s.AddServicePeriodObject(sp)
    return sp


def h_stoptrips(I):
    """Departures at a stop from a given time, earliest first."""
    s, r, acc, route, sp, stops = hlib.basic(I.b['stops'])
    visits = {}
    for i in range(I.b['trips']):
        t = route.AddTrip(s, 'head', sp, 'T%d' % i)
        n = I.b['stops']
        first = 3600 * I.int('f%d' % i, 0, 30)
        last = first + 60 * 4 * I.int('l%d' % i, 1, 30)
        at = I.choice('at%d' % i, [[0], [1], [2], [], [0, 2]])
        for k in range(n):
            u = first if k == 0 else last if k == n - 1 else None
            hlib.put(s, t, stops[0] if k in at else stops[1 + k % 2], k + 1,
                     arrival_secs=u, departure_secs=u)
        if len(at) > 1:
            I.cover('twice')
        # between ends a stop's time is interpolated by distance
        visits['T%d' % i] = (at, first, last)
    hlib.distances(I, {}, 100.0)
    h = viewer(I, s)
    now = I.int('now', 0, 3600 * 31)
    got = h.handle_json_GET_stoptrips({'stop': 'ST0', 'time': now})
    for a, b in zip(got, got[1:]):
        I.check(a[0] <= b[0], 'earliest first')
    total = 0
    for name in visits:
        at, first, last = visits[name]
        mine = [x for x in got if x[1][0] == name]
        due = []
        for k in at:
            if k == 0:
                due.append((first, True))
            elif k == I.b['stops'] - 1:
                due.append((last, True))
            else:
                due.append(((first + last) // 2, False))
                I.cover('interpolated')
        due = [d for d in due if bool(d[0] >= now)]
        total += len(due)
        if len(got) == 5:
            I.check(len(mine) <= len(due), 'only its visits')
            continue
        I.check(len(mine) == len(due), 'every visit from then on')
        for d, x in zip(due, mine):
            I.check(x[0] == d[0], 'its time')
            I.check(bool(x[2]) == d[1], 'timepoint iff timed')
            I.check(x[1][1] == '1 - One (Direction: head)' and
                    x[1][2] == sp.service_id, 'its trip')
    I.check(len(got) == min(total, 5), 'nothing else')
    I.cover('departures' if got else 'none')


def h_limit(I):
    """Five departures at most, of trips running that day."""
    s, r, acc, route, sp, stops = hlib.basic(2)
    we = weekend(s)
    runs = []
    for i in range(7):
        own = sp if i in (0, 6) else I.choice('sv%d' % i, [sp, we])
        t = route.AddTrip(s, 'head', own, 'T%d' % i)
        for k in range(2):
            hlib.put(s, t, stops[k], k + 1, arrival_secs=600 * i + 60 * k,
                     departure_secs=600 * i + 60 * k)
        runs.append((600 * i, 'T%d' % i, own))
    h = viewer(I, s)
    now = I.int('now', 0, 4200)
    p = {'stop': 'ST0', 'time': now}
    day = I.choice('day', [None, '', MONDAY, SUNDAY])
    if day is not None:
        p['date'] = day
    got = h.handle_json_GET_stoptrips(p)
    want = []
    for at, n, own in runs:
        if day and own is not (sp if day == MONDAY else we):
            continue
        if bool(at >= now):
            want.append((at, n))
    I.check([(x[0], x[1][0]) for x in got] == want[:5],
            'the next five that run')
    I.cover('cut' if len(want) > 5 else 'all')
    if day:
        I.cover('dated')


def h_names(I):
    """The trip is named by route and the latest headsign."""
    s, r, acc, route, sp, stops = hlib.basic(2)
    t = route.AddTrip(s, I.choice('trip', ['trip', '', None]), sp, 'T')
    signs = []
    for k in range(3):
        signs.append(I.choice('sign%d' % k, [None, '', 'sign%d' % k]))
        hlib.put(s, t, stops[k % 2], k + 1, arrival_secs=100 * k,
                 departure_secs=100 * k, stop_headsign=signs[k])
    route.route_short_name = I.choice('short', ['1', ''])
    route.route_long_name = I.choice('long', ['One', ''])
    got = viewer(I, s).handle_json_GET_stoptrips({'stop': 'ST1'})
    I.check(len(got) == 1, 'one visit')
    want = signs[1] or signs[0] or t.trip_headsign
    I.cover('stop headsign' if signs[1] or signs[0] else
            'trip headsign' if want else 'no headsign')
    name = ' - '.join([x for x in (route.route_short_name,
                                   route.route_long_name) if x])
    if want:
        name += ' (Direction: %s)' % want
    I.check(got[0][1] == ('T', name, sp.service_id), 'its name')


def h_patterns(I):
    """Trips are grouped by the stops they visit, in order."""
    s, r, acc, route, sp, stops = hlib.basic(3)
    we = weekend(s)
    groups = {}
    for i in range(I.b['trips'] + 1):
        ks = I.choice('stops%d' % i, [[0, 1], [1, 0], [0, 1, 2], []]
                      if i else [[0, 1]])
        own = I.choice('sv%d' % i, [sp, we]) if i < 2 else sp
        t = route.AddTrip(s, 'head', own, 'T%d' % i)
        at = I.int('t%d' % i, 0, 9)
        kind = I.choice('type%d' % i, [None, '0', '1']) if i == 1 else None
        if kind:
            t.trip_type = kind
        for k, j in enumerate(ks):
            hlib.put(s, t, stops[j], k + 1, arrival_secs=at + 10 * k,
                     departure_secs=at + 10 * k)
        groups.setdefault(tuple(ks), []).append((at, 'T%d' % i, own, kind))
    day = I.choice('day', ['', MONDAY, SUNDAY])
    got = viewer(I, s).handle_json_GET_routepatterns(
        {'route': 'R', 'date': day})
    I.check(len(got) == len([g for g in groups if g]),
            'a line per stop sequence')
    I.check(len(set([g[1] for g in got])) == len(got), 'distinct ids')
    for ks in groups:
        if not ks:
            I.cover('untimed')
            continue
        name = 'stop%d to stop%d, %d stops' % (ks[0], ks[-1], len(ks))
        mine = [g for g in got if g[0] == name]
        I.check(len(mine) == 1, 'named by its ends')
        trips = [x for x in groups[ks] if not day or
                 x[2] is (sp if day == MONDAY else we)]
        sample = mine[0][3]
        I.check(sorted([x[1] for x in sample]) ==
                sorted([x[1] for x in trips])[:3] or len(trips) > 3,
                'its trips that day')
        for at, n in sample:
            I.check(I.any([I.And(at == x[0]) for x in trips if x[1] == n]),
                    'their start')
        for a, b in zip(sample, sample[1:]):
            I.check(a[0] <= b[0], 'by start time')
        I.check(mine[0][5] == (1 if [x for x in trips if x[3] == '1'] else
                               0), 'special trips marked')
    I.cover('dated' if day else 'one pattern' if len(got) == 1 else
            'two patterns')


def h_sample(I):
    """Three trips from the asked time on, else the last three."""
    s, r, acc, route, sp, stops = hlib.basic(2)
    n = I.concrete(I.int('n', 1, 6))
    order = I.choice('order', [[0, 1, 2, 3, 4, 5], [3, 1, 5, 0, 4, 2]])
    starts = []
    for i in order[:n]:
        t = route.AddTrip(s, 'head', sp, 'T%d' % i)
        for k in range(2):
            hlib.put(s, t, stops[k], k + 1, arrival_secs=600 * i + 60 * k,
                     departure_secs=600 * i + 60 * k)
        starts.append((600 * i, 'T%d' % i))
    starts.sort()
    now = I.int('now', 0, 4000)
    got = viewer(I, s).handle_json_GET_routepatterns(
        {'route': 'R', 'time': now})
    I.check(len(got) == 1, 'one pattern')
    name, pid, first, sample, after, special = got[0]
    later = len([x for x in starts if bool(x[0] >= now)])
    at = 0 if n <= 3 else min(n - later, n - 3)
    I.check(first == at, 'where the sample starts')
    I.check(sample == starts[at:at + 3], 'three of them')
    I.check(after == max(0, n - at - 3), 'how many follow')
    I.cover('few' if n <= 3 else 'later' if later >= 3 else 'last')


def h_trip(I):
    """A trip's stops, times and line."""
    import transitfeed as tf
    s, r, acc, route, sp, stops = hlib.basic(2)
    t = route.AddTrip(s, 'head', sp, 'T')
    n = I.concrete(I.int('n', 1, 3))
    want = []
    for k in range(n):
        u = I.int('u%d' % k, 0, 9) + 10 * k if k != 1 else None
        v = I.int('v%d' % k, 0, 9) + 10 * k + 9 if k != 1 else None
        hlib.put(s, t, stops[k % 2], k + 1, arrival_secs=u, departure_secs=v)
        want.append((u, v, stops[k % 2]))
    pts = []
    if I.flag('shape'):
        sh = tf.Shape('SH')
        for i in range(2):
            p = (I.real('lat%d' % i, 5, 80, 4), I.real('lon%d' % i, 5, 80, 4))
            sh.AddPoint(p[0], p[1], i, r)
            pts.append(p)
        s.AddShapeObject(sh)
        t.shape_id = 'SH'
        I.cover('shape')
    else:
        pts = [(x[2].stop_lat, x[2].stop_lon) for x in want]
        I.cover('stops')
    if I.flag('color'):
        route.route_color = '00ff00'
        I.cover('color')
    h = viewer(I, s)
    got = h.handle_json_GET_tripshape({'trip': 'T'})
    I.check(got['points'] == pts, 'its points in order')
    I.check(got.get('color') == ('#00ff00' if route.route_color else None),
            'its color')
    a, b, c = h.handle_json_GET_tripstoptimes({'trip': 'T'})
    I.check(a == [(x[2].stop_id, x[2].stop_name, x[2].stop_lat,
                   x[2].stop_lon, 0) for x in want], 'its stops')
    I.check(b == [x[0] for x in want] and c == [x[1] for x in want],
            'its times')
    rows = h.handle_json_GET_triprows({'trip': 'T'})
    I.check([x[0] for x in rows] == ['trips.txt', 'routes.txt'] and
            rows[0][1]['trip_id'] == 'T' and rows[1][1]['route_id'] == 'R',
            'its rows')
    for f in (h.handle_json_GET_tripshape, h.handle_json_GET_triprows,
              h.handle_json_GET_tripstoptimes):
        I.check(f({'trip': 'U'}) is None, 'nothing of no trip')
    I.cover('unknown')


def h_search(I):
    """Stops whose id or name has the text, in any case."""
    s, r, acc = hlib.schedule()
    names = []
    for i in range(2):
        n = I.str('name%d' % i, 1, I.b['text'], 'aAb')
        s.AddStop(1.0 + i, 2.0, n, 'aX%d' % i)
        names.append(n)
    q = I.str('q', 1, 2, 'aBx1')
    got = viewer(I, s).handle_json_GET_stopsearch({'q': q})
    low = q.lower()
    for i, n in enumerate(names):
        hit = bool(I.Or(*[has(I, low, t) for t in (n.lower(), 'ax%d' % i)]))
        I.check([x[0] for x in got].count('aX%d' % i) == (1 if hit else 0),
                'found iff it has the text')
    I.cover('found' if got else 'none')


def has(I, q, t):
    return I.Or(False, *[t[i:i + len(q)] == q
                         for i in range(len(t) - len(q) + 1)])


def h_rows(I):
    s, r, acc, route, sp, stops = hlib.basic(2)
    names = [('1', 'One')]
    for i in range(2):
        sh = I.str('short%d' % i, 0, 1, '12')
        x = s.AddRoute(sh, 'L%d' % i, 'Tram', 'R%d' % i)
        names.append((sh, 'L%d' % i))
    h = viewer(I, s)
    got = h.handle_json_GET_routes({})
    I.check(len(got) == 3 and [x[1:] for x in got] == sorted(names),
            'by their names')
    I.check(sorted([x[0] for x in got]) == ['R', 'R0', 'R1'], 'all')
    I.cover('sorted')
    route.route_color = I.choice('color', ['', '0000ff'])
    cols, row = h.handle_json_GET_routerow({'route': 'R'})
    I.check(len(cols) == len(row), 'a cell per column')
    d = dict(zip(cols, row))
    I.check(d['route_id'] == 'R' and d['route_short_name'] == '1' and
            d['route_long_name'] == 'One' and d['agency_id'] == 'AG' and
            (d['route_color'] or '') == route.route_color and
            str(d['route_type']) == '3', 'its values')
    I.cover('row')


def h_edit(I):
    """The editor moves the stop named and no other."""
    s, r, acc, route, sp, stops = hlib.basic(2)
    h = viewer(I, s, 'location_editor')
    k = I.concrete(I.int('k', 0, 1))
    lat = I.str('lat', 1, I.b['text'], '123')
    h.handle_json_GET_setstoplocation({'id': 'ST%d' % k, 'lat': lat,
                                       'lng': '-5.5'})
    I.check(stops[k].stop_lat == float(lat) and stops[k].stop_lon == -5.5,
            'moved')
    o = 1 - k
    I.check(stops[o].stop_lat == 10.0 + o and stops[o].stop_lon == 20.0 + o,
            'the other stays')
    got = h.handle_json_GET_neareststops({'lat': lat, 'lon': '-5.5',
                                          'limit': '1'})
    I.check([x[0] for x in got] == ['ST%d' % k], 'now nearest there')
    h.handle_json_GET_setstoplocation({'id': I.choice('no', ['ST2', '']),
                                       'lat': '1', 'lng': '1'})
    I.check(stops[k].stop_lat == float(lat) and
            stops[o].stop_lat == 10.0 + o, 'an unknown stop moves none')
    wrote = []
    s.WriteGoogleTransitFeed = wrote.append
    h.server.feed_path = I.choice('path', [None, 'feed.zip'])
    msg = h.handle_json_GET_savedata({})
    I.check(wrote == ([h.server.feed_path] if h.server.feed_path else []),
            'saved where it came from')
    I.check(('saved' in msg) == bool(wrote), 'and said so')
    I.check(h.AllowEditMode() and not viewer(I, s).AllowEditMode(),
            'editing only in the editor')
    I.cover('moved')
