"""C17: the point at a travelled distance."""
import hlib
BOUNDS = {'quick': {'points': 4}, 'thorough': {'points': 6}}
COVERS = {'h_lookup': ['start', 'end', 'inside', 'vertex', 'no points']}
PTS = [(10.0, -20.0), (12.5, 20.0), (12.5, 60.0), (-40.0, 61.0), (0.0, 0.0),
       (80.0, 100.0)]


def h_lookup(I):
    from transitfeed import shape
    r, acc = hlib.reporter()
    sh = shape.Shape('S')
    n = I.choice('n', range(0, I.b['points'] + 1))
    ds = []
    for i in range(n):
        d = I.real('dist%d' % i, 0, 500, 4)
        if i:
            I.assume(d >= ds[-1])
        ds.append(d)
    order = list(range(n))
    if I.flag('reversed'):
        order.reverse()
    from transitfeed import shapepoint
    for i in order:
        p = shapepoint.ShapePoint('S', PTS[i][0], PTS[i][1], i, ds[i])
        sh.AddShapePointObjectUnsorted(p, r)
    q = I.real('query', -10, 600, 4)
    got = sh.GetPointWithDistanceTraveled(q)
    if n == 0:
        I.check(got is None, 'no points, no answer')
        I.cover('no points')
        return
    I.check(got is not None, 'an answer')
    lat, lon, d = got
    if q <= ds[0]:
        I.check(I.And(lat == PTS[0][0], lon == PTS[0][1], d == ds[0]),
                'at or before the start')
        I.cover('start')
        return
    if q >= ds[-1]:
        I.check(I.And(lat == PTS[n - 1][0], lon == PTS[n - 1][1],
                      d == ds[-1]), 'at or after the end')
        I.cover('end')
        return
    I.check(d == q, 'labelled with the queried distance')
    ok = []
    tol = 0.000001
    for k in range(n - 1):
        w = ds[k + 1] - ds[k]
        good = I.And(ds[k] <= q, q <= ds[k + 1], w > 0)
        for v, j in ((lat, 0), (lon, 1)):
            a, b = PTS[k][j], PTS[k + 1][j]
            diff = (v - a) * w - (b - a) * (q - ds[k])
            good = I.And(good, diff <= w * tol, diff >= -tol * w)
        ok.append(good)
    I.check(I.any(ok), 'proportional on a bracketing segment')
    I.cover('vertex' if I.concrete(I.any([q == x for x in ds])) else
            'inside')
