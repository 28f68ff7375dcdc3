"""C41: the string-line graph places stations and trips consistently."""
import hlib
BOUNDS = {'quick': {'dists': 3, 'trips': 2, 'ops': 4},
          'thorough': {'dists': 4, 'trips': 2, 'ops': 6}}
COVERS = {'h_lines': ['placed', 'no distance'],
          'h_stations': ['placed'],
          'h_trips': ['drawn', 'untimed'],
          'h_fallback': ['by time', 'uniform', 'backwards', 'untimed'],
          'h_span': ['early', 'late', 'short', 'long', 'plain'],
          'h_zoom': ['changed', 'kept'],
          'h_marks': ['station', 'no station', 'trip'],
          'h_grid': ['hours']}
SECONDS = {'quick': 500, 'thorough': 3000}
ASSUMPTIONS = ['pixel positions are compared to within one pixel']


def graph(I, height=300):
    mg = I.load('gtfsscheduleviewer.marey_graph')
    g = mg.MareyGraph()
    g._gheight = height
    said = []
    g._AddWarning = said.append
    g.said = said
    return g


def placed(I, ys, dists, height):
    """Heights grow with the distance covered."""
    room = height - 20
    total = sum(dists)
    I.check(len(ys) == len(dists) + 1 and ys[0] == 0, 'one per station')
    at = 0
    for i, d in enumerate(dists):
        at = at + d
        I.check(ys[i] <= ys[i + 1], 'in travel order')
        I.check(I.And((ys[i + 1] - 1) * total <= at * room,
                      (ys[i + 1] + 1) * total >= at * room),
                'in proportion')
        I.check(I.And(ys[i + 1] >= 0, ys[i + 1] <= room), 'on the graph')


def h_lines(I):
    height = I.choice('height', [120, 300])
    n = I.concrete(I.int('n', 0, I.b['dists']))
    dists = [I.int('d%d' % i, 0, 12) for i in range(n)]
    ys = graph(I, height)._CalculateYLines(dists)
    if not n or bool(sum(dists) == 0):
        I.check(ys == [], 'nothing to go by')
        I.cover('no distance')
        return
    placed(I, ys, dists, height)
    I.cover('placed')


def h_stations(I):
    """Stations of a pattern by the distance between its stops."""
    s, r, acc, route, sp, stops = hlib.basic(3)
    d = [I.int('d%d' % i, 1, 20) for i in range(2)]
    hlib.distances(I, {(10, 11): d[0], (11, 12): d[1]})
    g = graph(I)
    placed(I, g._BuildStations(stops), d, 300)
    I.cover('placed')


def points(text):
    """The points of every line drawn in the text."""
    out = []
    for part in text.split('points="')[1:]:
        body = part.split('"')[0]
        v = [float(x) for x in body.replace(',', ' ').split()]
        out.append(list(zip(v[0::2], v[1::2])))
    return out


def h_trips(I):
    """Every timed stop of a trip at its station and its minute."""
    s, r, acc, route, sp, stops = hlib.basic(3)
    g = graph(I)
    g._offset = off = I.choice('offset', [0, 2])
    g._stations = ys = [0, 40, 280]
    trips, want = [], []
    for i in range(I.b['trips']):
        t = route.AddTrip(s, 'head', sp, 'T%d' % i)
        base = I.choice('base%d' % i, [7800, 86400])
        pts = []
        for k in range(3):
            u = v = None
            if not (k == 1 and I.flag('untimed%d' % i)):
                u = base + 3600 * k + (60 * I.int('u%d' % i, 0, 9)
                                       if k == 0 else 0)
                v = u + (I.int('dwell%d' % i, 0, 119) if k == 1 else 0)
                pts += [(u, ys[k]), (v, ys[k])]
            else:
                I.cover('untimed')
            hlib.put(s, t, stops[k], k + 1, arrival_secs=u, departure_secs=v)
        trips.append(t)
        want.append(pts)
    lines = points(g._DrawTrips(trips))
    I.check(len(lines) == len(trips), 'a line per trip')
    for line, pts in zip(lines, want):
        I.check(len(line) == len(pts), 'two points per timed stop')
        for p, (u, y) in zip(line, pts):
            I.check(p[0] == u // 60 - 60 * off + 20, 'a pixel per minute')
            I.check(p[1] == y + 20, 'at its station')
    I.cover('drawn')


def h_fallback(I):
    """Without distances, stations follow the travel times of the trip."""
    s, r, acc, route, sp, stops = hlib.basic(1)
    g = graph(I)
    trips = []
    t = route.AddTrip(s, 'head', sp, 'T')
    times = []
    n = I.concrete(I.int('n', 1, 3))
    for k in range(n):
        u = 3600 + 60 * I.int('u%d' % k, 0, 9) + 500 * k
        v = u + 60 * I.int('v%d' % k, 0, 3)
        if k == 1 and n == 3 and I.flag('untimed'):
            u = v = None
        hlib.put(s, t, stops[0], k + 1, arrival_secs=u, departure_secs=v)
        times.append((u, v))
    text = g.Draw([x.stop for x in t.GetStopTimes()], [t], 300)
    timed = [u is not None for u, v in times]
    ride = [times[k + 1][0] - times[k][1] if timed[k] and timed[k + 1]
            else 10 for k in range(n - 1)]
    ys = g._stations
    I.check(len(ys) >= n, 'a height per stop')
    neg = [x for x in ride if bool(x < 0)]
    if neg or not all(timed):
        I.cover('backwards' if neg else 'untimed')
        for a, b in zip(ys, ys[1:]):
            I.check(a <= b, 'in travel order')
    elif n > 1 and bool(sum(ride) > 0):
        placed(I, ys, ride, 300)
        I.cover('by time')
    else:
        for a, b in zip(ys, ys[1:]):
            I.check(a <= b, 'in travel order')
        I.cover('uniform')
    lines = points(g._DrawTrips([t]))
    I.check(len(lines) == 1 and len(lines[0]) == 2 * sum(timed), 'drawn')
    at = [ys[k] for k in range(n) if timed[k]]
    for k, y in enumerate(at):
        I.check(lines[0][2 * k][1] == y + 20, 'at its station')
    I.check('None' not in text, 'no stray text')


def h_span(I):
    """The hours shown start before the first and end after the last."""
    g = graph(I)
    first = I.int('first', 0, 3600 * 40)
    last = first + I.int('ride', 0, 3600 * 40)
    g.SetSpan(first, last)
    I.check(I.And(g._offset >= 0, g._offset <= 23), 'an hour of the day')
    I.check(I.And(g._tspan >= 5, g._tspan <= 30), 'five to thirty hours')
    I.check(g._gwidth == 60 * g._tspan, 'its width')
    I.check(I.Implies(first < 25 * 3600, g._offset * 3600 <= first),
            'starts before')
    hours = last // 3600 + 2 - first // 3600
    if bool(first < 3600):
        I.cover('early')
    elif bool(first >= 25 * 3600):
        I.cover('late')
    elif bool(hours < 5):
        I.cover('short')
    elif bool(hours > 30):
        I.cover('long')
    else:
        I.check((g._offset + g._tspan) * 3600 > last, 'ends after')
        I.check(g._offset == first // 3600 - 1, 'an hour before')
        I.cover('plain')


def h_zoom(I):
    g = graph(I)
    for i in range(I.b['ops']):
        op = I.choice('op%d' % i, ['set', 'more', 'less'])
        old = g._zoomfactor
        if op == 'set':
            z = I.real('z%d' % i, -1, 7, 4)
            g.ChangeScaleFactor(z)
            ok = bool(I.And(z > 0, z < 5))
            I.check(g._zoomfactor == (z if ok else old), 'set if allowed')
            I.cover('changed' if ok else 'kept')
        elif op == 'more':
            g.ScaleLarger()
            I.check(g._zoomfactor >= old, 'larger')
        else:
            g.ScaleSmaller()
            I.check(g._zoomfactor <= old, 'smaller')
        I.check(I.And(g._zoomfactor > 0, g._zoomfactor < 5),
                'between nothing and five')


def h_marks(I):
    """Highlights lie where their station or trip is drawn."""
    s, r, acc, route, sp, stops = hlib.basic(3)
    t = route.AddTrip(s, 'head', sp, 'T')
    for k in range(3):
        hlib.put(s, t, stops[k], k + 1, arrival_secs=600 * k,
                 departure_secs=600 * k)
    hlib.distances(I, {(10, 11): 100.0, (11, 12): 300.0})
    g = graph(I)
    first = g.Draw(stops, [t], 420)
    I.check(g._stations == [0, 100, 400], 'stations')
    k = I.int('k', -1, 4)
    g.AddStationDecoration(k)
    got = points(g._DrawDecorators())
    if bool(I.And(k >= 0, k < 3)):
        y = g._stations[I.concrete(k)]
        I.check(len(got) == 1 and [p[1] for p in got[0]] ==
                [y + 20.5, y + 20.5], 'along the station')
        I.cover('station')
    else:
        I.check(got == [], 'no such station')
        I.cover('no station')
    g.AddTripDecoration([t])
    more = points(g._DrawDecorators())
    I.check(len(more) == len(got) + 1 and
            [p[1] for p in more[-1]] == [20, 20, 120, 120, 420, 420],
            'along the trip')
    I.cover('trip')
    text = g.Draw()
    I.check(len(points(text)) == len(points(first)) + len(more),
            'drawn on top')
    g.ClearDecorators()
    I.check(g.Draw() == first, 'and taken off')


def h_grid(I):
    """Hour lines every hour, labelled with the hour of the day."""
    g = graph(I)
    a = I.int('a', 0, 30)
    g.SetSpan(a * 3600, (a + I.choice('len', [1, 7])) * 3600)
    text = g._DrawHours()
    labels = [x.split('<')[0] for x in text.split('class="Label"')[1:]]
    labels = [x.split('>')[1] for x in labels]
    I.check(len(labels) == I.concrete(g._tspan), 'every hour')
    for i, x in enumerate(labels):
        I.check(int(x) == (g._offset + i) % 24, 'its hour')
    full = points(text)
    I.check(len(full) == len(labels) * 12, 'every five minutes')
    for i, p in enumerate(full):
        I.check(p[0][0] == 20 + 5 * i and p[1][0] == p[0][0], 'upright')
    I.cover('hours')
