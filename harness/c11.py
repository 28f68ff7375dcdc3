"""C11: interpolated times."""
import hlib
BOUNDS = {'quick': {'stops': 5}, 'thorough': {'stops': 6}}
COVERS = {'h_times': ['interpolated', 'refused', 'empty', 'no distance'],
          'h_dists': ['interpolated']}


def run(I, n, timed, times, gaps):
    s, r, acc, route, sp, stops = hlib.basic(n)
    trip = route.AddTrip(s, 'head', sp, 'T')
    other = route.AddTrip(s, 'head', sp, 'OTHER')
    table = {}
    for i in range(n):
        for j in range(i):
            table[10 + j, 10 + i] = gaps[j] if j == i - 1 else 77777.0
    hlib.distances(I, table)
    for i in range(n):
        t = times[i] if timed[i] else None
        hlib.put(s, trip, stops[i], 3 * i + 1, arrival_secs=t,
                 departure_secs=None if t is None else t + 5)
        hlib.put(s, other, stops[i], 3 * i, arrival_secs=1, departure_secs=2)
    if n and not (timed[0] and timed[-1]):
        try:
            trip.GetTimeInterpolatedStops()
        except ValueError:
            I.cover('refused')
            return
        I.fail('no value error')
        return
    got = trip.GetTimeInterpolatedStops()
    I.check(len(got) == n, 'one entry per stop')
    I.log('marks', [x[2] for x in got])
    if not n:
        I.cover('empty')
    for i in range(n):
        secs, st, is_tp = got[i]
        I.check(st.stop is stops[i], 'stop')
        I.check(st.stop_sequence == 3 * i + 1, 'stop time')
        if timed[i]:
            I.check(I.And(secs == times[i], is_tp == True), 'timed stop')
            continue
        I.check(is_tp == False, 'not a timepoint')
        lo, hi = i, i
        while not timed[lo]:
            lo -= 1
        while not timed[hi]:
            hi += 1
        part, tot = 0, 0
        for k in range(lo, hi):
            tot = tot + gaps[k]
            if k < i:
                part = part + gaps[k]
        t0, t1 = times[lo], times[hi]
        if tot == 0:
            I.cover('no distance')
            I.check(I.Or(I.And(t0 <= secs, secs <= t1),
                         I.And(t1 <= secs, secs <= t0)),
                    'between the timed stops')
            continue
        I.cover('interpolated')
        # |secs - (t0 + (t1-t0)*part/tot)| <= 1/2 (and float noise)
        diff = (secs - t0) * tot - (t1 - t0) * part
        I.check(I.And(2 * diff <= tot * 1.00001, -2 * diff <= tot * 1.00001),
                'proportional to distance')
        I.check(I.Implies(t0 <= t1, I.And(t0 <= secs, secs <= t1)),
                'between the timed stops')
    for i in range(1, n):
        a, b = got[i - 1], got[i]
        mono = I.all([times[k] <= times[j] for k in range(n)
                      for j in range(k + 1, n) if timed[k] and timed[j]])
        I.check(I.Implies(mono, a[0] <= b[0]), 'in order')


def h_times(I):
    n = I.choice('n', range(0, I.b['stops'] + 1))
    timed = [I.flag('timed%d' % i) for i in range(n)]
    times = [I.int('t%d' % i, 0, 200000) if timed[i] else None
             for i in range(n)]
    gaps = []
    for i in range(n - 1):
        g = 100.0
        if not (timed[i] and timed[i + 1]) and timed[0] and timed[-1]:
            g = I.choice('gap%d' % i, [0.0, 100.0, 256.5])
        gaps.append(g)
    run(I, n, timed, times, gaps)


def h_dists(I):
    """Any distances between fixed times."""
    n = I.choice('n', range(3, I.b['stops'] + 1))
    gaps = [I.real('gap%d' % i, 0, 10000, 16) for i in range(n - 1)]
    I.assume(I.any([g > 0 for g in gaps]))
    t1 = I.choice('last', [36000, 36007, 36600])
    run(I, n, [True] + [False] * (n - 2) + [True],
        [36000] + [None] * (n - 2) + [t1], gaps)
