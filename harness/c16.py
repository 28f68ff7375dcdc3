"""C16: shape points in sequence order."""
import hlib
BOUNDS = {'quick': {'points': 3, 'stored': [2, 5, 9]},
          'thorough': {'points': 4, 'stored': [2, 4, 7, 12, 20]}}
COVERS = {'h_order': ['repeated', 'distinct', 'bad distance',
                      'good distance'],
          'h_many': ['repeated', 'good distance', 'bad distance'],
          'h_points': ['accepted', 'refused'], 'h_clear': ['cleared']}


def h_order(I):
    from transitfeed import shape, shapepoint
    r, acc = hlib.reporter()
    sh = shape.Shape('S')
    n = I.choice('n', range(1, I.b['points'] + 1))
    pts = []
    for i in range(n):
        q = I.int('seq%d' % i, 0, 50)
        d = I.real('dist%d' % i, 0, 500, 4) if I.flag('given%d' % i) \
            else None
        p = shapepoint.ShapePoint('S', 10.0 + i, 20.0 + i, q, d)
        acc.clear()
        I.check(p.ParseAttributes(r) == True, 'valid point')
        sh.AddShapePointObjectUnsorted(p, r)
        dup = I.any([q == x[0] for x in pts])
        I.check(len(acc.on('shape_pt_sequence')) == I.ite(dup, 1, 0),
                'repeated number')
        got = acc.on('shape_dist_traveled')
        if dup:
            I.cover('repeated')
            pts.append((q, d, i))
            break
        I.cover('distinct')
        # nearest stored neighbours by sequence number
        lo = hi = None
        for x in pts:
            if x[0] < q:
                if lo is None or x[0] > lo[0]:
                    lo = x
            else:
                if hi is None or x[0] < hi[0]:
                    hi = x
        want = 0
        if d is not None:
            if hi is not None and hi[1] is not None:
                want = want + I.ite(d > hi[1], 1, 0)
            if lo is not None and lo[1] is not None:
                want = want + I.ite(d < lo[1], 1, 0)
        I.check(len(got) == want, 'distance out of step')
        I.check(len(acc.problems) == len(got), 'nothing else')
        I.cover('bad distance' if got else 'good distance')
        pts.append((q, d, i))
    n = len(pts)
    I.check(len(sh.points) == n and len(sh.sequence) == n and
            len(sh.distance) == n, 'every point once')
    I.log('lats', [p[0] for p in sh.points])
    seen = []
    for k in range(n):
        i = int(sh.points[k][0]) - 10
        seen.append(i)
        I.check(I.And(sh.sequence[k] == pts[i][0],
                      sh.points[k][1] == 20.0 + i,
                      sh.points[k][2] == pts[i][1],
                      sh.distance[k] == pts[i][1]), 'in step')
        if k:
            I.check(sh.sequence[k - 1] <= sh.sequence[k], 'order')
    I.check(sorted(seen) == list(range(n)), 'each point')
    top = 0
    for q, d, i in pts:
        if d is not None:
            top = I.max(top, d)
    I.check(sh.max_distance == top, 'maximum distance')


def h_many(I):
    """Two late points in a longer shape."""
    from transitfeed import shape, shapepoint
    r, acc = hlib.reporter()
    sh = shape.Shape('S')
    n = I.choice('n', I.b['stored'])
    pts = [(10 * k + 10, 10.0 * k + 10) for k in range(n)]
    for q, d in pts:
        sh.AddShapePointObjectUnsorted(
            shapepoint.ShapePoint('S', 10.0 + q * 0.01, 20.0, q, d), r)
    for i in range(2):
        q = I.int('seq%d' % i, 0, 10 * n + 15)
        d = I.real('dist%d' % i, 0, 10 * n + 20, 64)
        acc.clear()
        sh.AddShapePointObjectUnsorted(
            shapepoint.ShapePoint('S', 50.0, 30.0 + i, q, d), r)
        if I.any([q == x[0] for x in pts]):
            I.check(len(acc.on('shape_pt_sequence')) == 1,
                    'repeated number')
            I.cover('repeated')
            return
        lo = I.max(*([-1.0] + [I.ite(x[0] < q, x[1], -1.0) for x in pts])) \
            if not i else None
        if i == 0:
            # distances grow with the numbers so far
            hi = I.min(*([100000.0] + [I.ite(x[0] > q, x[1], 100000.0)
                                       for x in pts]))
            bad = I.Or(d > hi, d < lo)
            I.check(I.Iff(bad, len(acc.problems) > 0), 'out of step')
            I.cover('bad distance' if acc.problems else 'good distance')
        pts.append((q, d))
    I.check(len(sh.sequence) == len(pts), 'each once')
    for k in range(1, len(pts)):
        I.check(sh.sequence[k - 1] < sh.sequence[k], 'order')
    for q, d in pts:
        I.check(I.any([I.And(a == q, b == d, p[2] == d) for a, b, p in
                       zip(sh.sequence, sh.distance, sh.points)]), 'kept')
    I.log('at', [int(p[0] == 50.0) for p in sh.points])


def h_points(I):
    """Which points are accepted."""
    from transitfeed import shape
    r, acc = hlib.reporter()
    sh = shape.Shape('S')
    sh.AddPoint(50.0, 60.0, 0.0, r)
    acc.clear()
    lat = I.real('lat', -200, 200, 4)
    lon = I.real('lon', -200, 200, 4)
    d = I.real('dist', -50, 50, 4) if I.flag('given') else None
    sh.AddPoint(lat, lon, d, r)
    ok = I.And(lat >= -90, lat <= 90, lon >= -180, lon <= 180,
               I.Or(lat >= 1, lat <= -1, lon >= 1, lon <= -1))
    if d is not None:
        ok = I.And(ok, d >= 0)
    I.log('n', len(sh.points))
    I.check(I.Iff(ok, len(sh.points) == 2), 'accepted iff')
    I.check(I.Iff(ok, len(acc.problems) == 0), 'reported iff not accepted')
    if len(sh.points) == 2:
        I.check(I.And(sh.points[1][0] == lat, sh.points[1][1] == lon,
                      sh.points[1][2] == d), 'point kept')
        I.cover('accepted')
    else:
        I.check(len(acc.problems) == 1, 'one report')
        I.cover('refused')


def h_clear(I):
    """A cleared shape behaves like a new one."""
    from transitfeed import shape
    r, acc = hlib.reporter()
    sh = shape.Shape('S')
    for i in range(2):
        sh.AddPoint(10.0 + i, 20.0, I.real('old%d' % i, 0, 500, 4) + 500 * i,
                    r)
    sh.ClearPoints()
    new = shape.Shape('S')
    d = I.real('new', 0, 500, 4)
    for x in (sh, new):
        for i in range(2):
            x.AddPoint(30.0 + i, 40.0, d + i, r)
    I.log('n', len(sh.points))
    I.check(sh.points == new.points, 'points')
    I.check(sh.distance == new.distance and sh.sequence == new.sequence,
            'distances and numbers')
    I.check(sh.max_distance == new.max_distance, 'maximum distance')
    q = I.real('query', 0, 1200, 4)
    I.check(sh.GetPointWithDistanceTraveled(q) ==
            new.GetPointWithDistanceTraveled(q), 'lookup')
    I.cover('cleared')
