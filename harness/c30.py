"""C30: limited problem lists keep the most significant problems."""
import hlib
BOUNDS = {'quick': {'n': 4, 'limit': 3, 'm': 3},
          'thorough': {'n': 5, 'limit': 4, 'm': 4}}
COVERS = {'h_ranked': ['all kept', 'dropped', 'tie', 'far first',
                       'near first', 'none kept'],
          'h_unranked': ['all kept', 'dropped', 'none kept'],
          'h_mixed': ['dropped']}
SECONDS = {'quick': 400}


def make(I, r, kind, d):
    if kind == 'TooFastTravel':
        r.TooFastTravel('T', 'a', 'b', d, 60, None if I.b['n'] % 2 else 5.0)
    elif kind == 'StopTooFarFromParentStation':
        r.StopTooFarFromParentStation('S', 's', 'P', 'p', d)
    elif kind == 'StopTooFarFromShapeWithDistTraveled':
        r.StopTooFarFromShapeWithDistTraveled('T', 's', 'S', 1.0, 'SH', d,
                                              100)
    elif kind == 'DifferentStationTooClose':
        r.DifferentStationTooClose('s', 'S', 'p', 'P', d)
    else:
        getattr(r, kind)('a', 'A', 'b', 'B', d)


FAR = ['TooFastTravel', 'StopTooFarFromParentStation',
       'StopTooFarFromShapeWithDistTraveled']
NEAR = ['StopsTooClose', 'StationsTooClose', 'DifferentStationTooClose']


def h_ranked(I):
    from transitfeed import problems
    import feedvalidator as fv
    kind = I.choice('kind', FAR + NEAR)
    lim = I.concrete(I.int('limit', 0, I.b['limit']))
    n = I.concrete(I.int('n', 1, I.b['n']))
    acc = fv.LimitPerTypeProblemAccumulator(lim)
    r = problems.ProblemReporter(acc)
    ds = [I.real('d%d' % i, 0, 500, 64) for i in range(n)]
    for d in ds:
        make(I, r, kind, d)
    (t,) = [t for t in (0, 1, 2) if acc.ProblemListMap(t)]
    b = acc.ProblemList(t, kind)
    I.check(b.count == n, 'count')
    I.check(len(b.problems) == min(n, lim), 'kept')
    I.check(b.dropped_count == n - min(n, lim), 'dropped')
    far = kind in FAR
    kept = [e.dist if kind == 'TooFastTravel' else e.distance
            for e in b.problems]
    sign = -1 if far else 1
    # kept is a sublist of what was reported and the k-th shown is the k-th
    # most significant: as many reported strictly better as its place allows
    for k in range(len(kept)):
        better = I.count([sign * d < sign * kept[k] for d in ds])
        same = I.count([d == kept[k] for d in ds])
        I.check(I.And(better <= k, k < better + same),
                'k-th most significant')
        I.log('kept%d' % k, kept[k])
    I.cover('all kept' if lim >= n else 'none kept' if lim == 0 else
            'dropped')
    I.cover('far first' if far else 'near first')
    if n > 1 and bool(ds[0] == ds[1]):
        I.cover('tie')


def h_unranked(I):
    from transitfeed import problems
    import feedvalidator as fv
    lim = I.concrete(I.int('limit', 0, I.b['limit']))
    kind = I.choice('kind', ['InvalidValue', 'UnusedStop', 'OtherProblem',
                             'DuplicateTrip'])
    n = I.concrete(I.int('n', 1, I.b['n']))
    acc = fv.LimitPerTypeProblemAccumulator(lim)
    r = problems.ProblemReporter(acc)
    vs = [I.int('v%d' % i, 0, 9) for i in range(n)]
    for v in vs:
        if kind == 'InvalidValue':
            r.InvalidValue('col', v, type=1)
        elif kind == 'UnusedStop':
            r.UnusedStop(v, 'name')
        elif kind == 'OtherProblem':
            r.OtherProblem(v, type=1)
        else:
            r.DuplicateTrip(v, 'R', 'T', 'R')
    b = acc.ProblemList(1, kind)
    I.check(b.count == n, 'count')
    I.check(len(b.problems) == min(n, lim), 'kept')
    I.check(b.dropped_count == max(0, n - lim), 'dropped')
    f = {'InvalidValue': 'value', 'UnusedStop': 'stop_id',
         'OtherProblem': 'description', 'DuplicateTrip': 'trip_id1'}[kind]
    for k, e in enumerate(b.problems):
        I.check(getattr(e, f) == vs[k], 'the first reported')
    I.cover('all kept' if lim >= n else 'none kept' if lim == 0 else
            'dropped')


def h_mixed(I):
    """Kinds and levels are limited separately."""
    from transitfeed import problems
    import feedvalidator as fv
    lim = I.concrete(I.int('limit', 1, 2))
    acc = fv.LimitPerTypeProblemAccumulator(lim)
    r = problems.ProblemReporter(acc)
    got = {}
    for i in range(I.b['m']):
        k = I.choice('kind%d' % i, ['near', 'far', 'plain'])
        t = I.choice('type%d' % i, [0, 1])
        d = I.real('d%d' % i, 0, 50, 64)
        if k == 'near':
            r.StopsTooClose('a', 'A', 'b', 'B', d, type=t)
        elif k == 'far':
            r.StopTooFarFromParentStation('S', 's', 'P', 'p', d, type=t)
        else:
            r.InvalidValue('col', d, type=t)
        got.setdefault((k, t), []).append(d)
    for k, t in got:
        name = {'near': 'StopsTooClose', 'plain': 'InvalidValue',
                'far': 'StopTooFarFromParentStation'}[k]
        b = acc.ProblemList(t, name)
        ds = got[k, t]
        I.check(b.count == len(ds), 'count')
        if len(ds) > lim:
            I.cover('dropped')
        kept = [e.value if k == 'plain' else e.distance for e in b.problems]
        I.check(len(kept) == min(lim, len(ds)), 'kept')
        if k == 'plain':
            for x, y in zip(kept, ds):
                I.check(x == y, 'first')
        else:
            sign = 1 if k == 'near' else -1
            best = sign * kept[0]
            I.check(I.all([best <= sign * d for d in ds]), 'best first')
