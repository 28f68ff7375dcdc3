"""C09: too-fast travel."""
import hlib
BOUNDS = {'quick': {'stops': 3}, 'thorough': {'stops': 4}}
COVERS = {'h_speed': ['fast', 'slow', 'no time fast', 'no time slow',
                      'not comparable'],
          'h_unlocated': ['not comparable', 'fast', 'slow'],
          'h_types': ['fast', 'slow']}
MAX = {0: 100, 1: 150, 2: 300, 3: 100, 4: 80, 5: 50, 6: 50, 7: 50}


def run(I, n, rtype, kinds, located, limit, speeds=False):
    s, r, acc, route, sp, stops = hlib.basic(n, rtype)
    trip = route.AddTrip(s, 'head', sp, 'T')
    table = {}
    for i in range(n):
        for j in range(i):
            table[10 + j, 10 + i] = I.real('d%d%d' % (j, i), 0, 200000, 4)
    hlib.distances(I, table)
    rows = []
    for i in range(n):
        k = kinds[i]
        a = I.int('arr%d' % i, 0, 100000) if k != 'none' else None
        d = I.int('dep%d' % i, 0, 100000) if k == 'both' else None
        if d is not None:
            I.assume(d >= a)
        rows.append((a, d))
        if not located[i]:
            stops[i].stop_lat = None
        hlib.put(s, trip, stops[i], i + 1, arrival_secs=a, departure_secs=d)
    acc.clear()
    s.ValidateTripStopTimes(r)
    got = acc.of('TooFastTravel')
    want = []
    prev, pdep = None, 0
    for i in range(n):
        a, d = rows[i]
        if a is None:
            continue
        ok = True
        if pdep is not None:
            ok = a >= pdep
        if prev is not None and pdep is not None and located[i] and \
                located[prev]:
            dist = table[10 + prev, 10 + i]
            dt = a - pdep
            if dt == 0:
                bad = I.Or(pdep % 60 != 0, dist * 60 > limit * 1000)
                sp = None
            elif dt > 0:
                # dist/1000 km over dt/3600 h
                bad = dist * 3600 > limit * 1000 * dt
                sp = dist * 3600 / (1000 * dt)
            else:
                bad = False
                sp = None
            if bad:
                want.append((prev, i, dist, dt, sp))
            if dt == 0:
                I.cover('no time fast' if bad else 'no time slow')
            else:
                I.cover('fast' if bad else 'slow')
        elif prev is not None:
            I.cover('not comparable')
        if ok:
            prev, pdep = i, d
    I.log('n', len(got))
    I.check(len(got) == len(want), 'number of reports')
    for e, (p, i, dist, dt, spd) in zip(got, want):
        I.check(I.And(e.prev_stop == 'stop%d' % p,
                      e.next_stop == 'stop%d' % i), 'stops named')
        I.check(e.IsWarning(), 'severity')
        I.check(e.trip_id == 'T', 'trip named')
        I.check(I.And(e.dist == dist, e.time == dt), 'figures')
        if not speeds:
            pass
        elif spd is None:
            I.check(e.speed is None, 'no speed')
        else:
            I.check(I.And(e.speed - spd < 0.001, spd - e.speed < 0.001),
                    'speed named')


def h_speed(I):
    n = I.choice('n', range(3, I.b['stops'] + 1))
    kinds = [I.choice('kind0', ['both', 'arr'])]
    for i in range(1, n - 1):
        kinds.append(I.choice('kind%d' % i, ['both', 'none', 'arr']))
    run(I, n, 3, kinds + ['arr'], [True] * n, 100)


def h_unlocated(I):
    miss = I.choice('unlocated', range(3))
    run(I, 3, 3, ['both', 'both', 'arr'], [i != miss for i in range(3)], 100)


def h_types(I):
    rtype = I.choice('type', [0, 1, 2, 3, 4, 5, 6, 7, 8, 1700, None])
    run(I, 2, rtype, ['both', 'both'], [True, True], MAX.get(rtype, 100),
        True)
