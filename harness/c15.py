"""C15: long runs of identical stop times."""
import hlib
BOUNDS = {'quick': {'stops': 7}, 'thorough': {'stops': 10}}
COVERS = {'h_runs': ['one run', 'none', 'untimed inside'],
          'h_two': ['two runs', 'one run']}


def check(I, rows):
    s, r, acc, route, sp, stops = hlib.basic(1)
    trip = route.AddTrip(s, 'head', sp, 'T')
    for i, (a, d) in enumerate(rows):
        hlib.put(s, trip, stops[0], i + 1, arrival_secs=a, departure_secs=d)
    acc.clear()
    s.ValidateTrips(r)
    got = acc.of('TooManyConsecutiveStopTimesWithSameTime')
    # maximal runs: a stop followed by stops that arrive and leave at the
    # time it leaves, untimed stops in between counted
    want = []
    timed = [i for i in range(len(rows)) if rows[i][0] is not None and
             rows[i][1] is not None]
    k = 0
    while k < len(timed):
        t = rows[timed[k]][1]
        j = k
        while j + 1 < len(timed) and I.concrete(
                I.And(rows[timed[j + 1]][0] == t,
                      rows[timed[j + 1]][1] == t)):
            j += 1
        size = timed[j] - timed[k] + 1 if j > k else 1
        if size > 5:
            want.append((size, t))
            if j - k + 1 < size:
                I.cover('untimed inside')
        k = j + 1
    I.log('got', [(e.number_of_stop_times, e.stop_time) for e in got])
    I.check(len(got) == len(want), 'number of warnings')
    for e, (size, t) in zip(got, want):
        I.check(I.And(e.number_of_stop_times == size, e.trip_id == 'T'),
                'length of the run')
        from transitfeed import util
        I.check(e.stop_time == util.FormatSecondsSinceMidnight(t),
                'time of the run')
        I.check(e.IsWarning(), 'severity')
    I.cover({0: 'none', 1: 'one run'}.get(len(want), 'two runs'))


def h_runs(I):
    n = I.b['stops']
    rows = []
    for i in range(n):
        if I.flag('timed%d' % i):
            a = I.int('arr%d' % i, 0, 3)
            d = I.int('dep%d' % i, 0, 3)
            I.assume(a <= d)
            rows.append((a, d))
        else:
            rows.append((None, None))
    check(I, rows)


def h_two(I):
    """Two long runs one after the other."""
    rows = []
    t = I.int('t1', 0, 100000)
    u = I.int('t2', 0, 100000)
    n = I.choice('first', [5, 6, 7])
    rows += [(t, t)] * n
    if I.flag('untimed'):
        rows += [(None, None)]
    rows += [(u, u)] * I.choice('second', [5, 6])
    v = I.int('t3', 0, 100000)
    rows += [(u, v)]
    rows += [(None, None)]
    check(I, rows)
