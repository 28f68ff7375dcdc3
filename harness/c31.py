"""C31: nearest-stop and bounding-box queries."""
import hlib
BOUNDS = {'quick': {'stops': 3, 'n': 4}, 'thorough': {'stops': 4, 'n': 5}}
COVERS = {'h_nearest': ['all', 'some', 'none', 'tie', 'line', 'plane'],
          'h_box': ['all', 'some', 'none', 'edge', 'cut'],
          'h_bounds': ['one', 'more']}
SECONDS = {'quick': 400}


def place(I, line):
    s, r, acc = hlib.schedule()
    k = I.concrete(I.int('stops', 1, I.b['stops']))
    at = []
    for i in range(k):
        lat = I.choice('lat%d' % i, [0, 2, -3]) * 1.0 if line else \
            I.int('lat%d' % i, -10, 10) * 0.5
        lon = I.int('lon%d' % i, -10, 10) * 0.5
        at.append((lat, lon, s.AddStop(lat, lon, 'x', 'S%d' % i)))
    return s, at


def h_nearest(I):
    mode = I.choice('mode', ['line', 'plane'])
    s, at = place(I, mode == 'line')
    n = I.concrete(I.int('n', 0, I.b['n']))
    if mode == 'line':
        qlat, qlon = 1.0, I.int('qlon', -10, 10) * 0.5
    else:
        qlat, qlon = 0.5, 0.0
    I.cover(mode)
    got = s.GetNearestStops(qlat, qlon, n)
    I.check(len(got) == min(n, len(at)), 'number')
    if n == 1:
        I.check([x.stop_id for x in s.GetNearestStops(qlat, qlon)] ==
                [x.stop_id for x in got], 'one unless told otherwise')
    ids = [x.stop_id for x in got]
    I.check(len(set(ids)) == len(ids), 'distinct')
    dist = {}
    for i, (lat, lon, x) in enumerate(at):
        dist['S%d' % i] = (lat - qlat) * (lat - qlat) + \
            (lon - qlon) * (lon - qlon)
        I.check(s.GetStop('S%d' % i) is x, 'the stop')
    for k in range(len(ids) - 1):
        I.check(dist[ids[k]] <= dist[ids[k + 1]], 'ordered')
    for o in dist:
        if o not in ids:
            for k in ids:
                I.check(dist[k] <= dist[o], 'no nearer stop omitted')
    I.cover('none' if not got else 'some' if len(got) < len(at) else 'all')
    if len(at) > 1 and bool(dist['S0'] == dist['S1']):
        I.cover('tie')


def h_box(I):
    s, at = place(I, False)
    n = I.concrete(I.int('n', 0, I.b['n']))
    box = [I.int(k, -11, 11) * 0.5 for k in ('north', 'east', 'south',
                                             'west')]
    got = s.GetStopsInBoundingBox(box[0], box[1], box[2], box[3], n)
    inside = [bool(I.And(x[0] <= box[0], x[0] >= box[2], x[1] <= box[1],
                         x[1] >= box[3])) for x in at]
    ids = [x.stop_id for x in got]
    I.check(len(set(ids)) == len(ids), 'distinct')
    for k in ids:
        I.check(inside[int(k[1:])], 'inside')
    I.check(len(ids) == min(n, sum(inside)), 'number')
    I.cover('none' if not got else 'some' if len(got) < len(at) else 'all')
    if sum(inside) > n:
        I.cover('cut')
    if inside[0] and bool(at[0][0] == box[0]):
        I.cover('edge')


def h_bounds(I):
    s, at = place(I, False)
    a, b, c, d = s.GetStopBoundingBox()
    for v, k, sign in ((a, 0, 1), (b, 1, 1), (c, 0, -1), (d, 1, -1)):
        I.check(I.all([sign * v <= sign * x[k] for x in at]), 'contains')
        I.check(I.Or(*[v == x[k] for x in at]), 'tight')
    I.cover('one' if len(at) == 1 else 'more')
