"""C14: overlapping trips of a block."""
import hlib
BOUNDS = {'quick': {'trips': 3}, 'thorough': {'trips': 4}}
COVERS = {'h_blocks': ['conflict', 'none', 'unknown service'],
          'h_ends': ['conflict', 'none']}
BLOCKS = {2: ['AA', 'AB', 'A-', '--'], 3: ['AAA', 'AAB', 'ABA', 'A-A'],
          4: ['AAAA', 'AABB', 'ABAB']}


def run(I, n, blocks, svc, shared):
    s, r, acc, route, sp, stops = hlib.basic(2)
    from transitfeed import serviceperiod
    days = {'S1': [0], 'S2': [0, 2] if shared else [2], 'S3': [1, 2]}
    # S1 by calendar, S2 by added days, S3 by calendar less a removed day
    for k in ('S1', 'S2', 'S3'):
        p = serviceperiod.ServicePeriod(k)
        if k == 'S1':
            p.SetStartDate('20100104')
            p.SetEndDate('20100104')
            p.SetDayOfWeekHasService(0)
        elif k == 'S2':
            for d in days[k]:
                p.SetDateHasService('2010010%d' % (4 + d))
        else:
            p.SetStartDate('20100104')
            p.SetEndDate('20100106')
            p.SetWeekdayService(True)
            p.SetDateHasService('20100104', False)
        s.AddServicePeriodObject(p, r)
    spans = []
    trips = []
    for i in range(n):
        t = route.AddTrip(s, 'head', sp, 'T%d' % i)
        t.service_id = svc[i]
        if blocks[i] != '-':
            t.block_id = blocks[i]
        a = I.int('start%d' % i, 0, 200000)
        b = I.int('end%d' % i, 0, 200000)
        I.assume(a < b)
        hlib.put(s, t, stops[0], 1, arrival_secs=a, departure_secs=a)
        hlib.put(s, t, stops[1], 2, arrival_secs=b, departure_secs=b)
        spans.append((a, b))
        trips.append(t)
    acc.clear()
    s.ValidateTrips(r)
    got = acc.of('OverlappingTripsInSameBlock')
    pairs = {}
    for e in got:
        k = tuple(sorted([e.trip_id1, e.trip_id2]))
        pairs[k] = pairs.get(k, 0) + 1
        i = int(k[0][1:])
        I.check(e.block_id == blocks[i], 'block named')
    total = 0
    for i in range(n):
        for j in range(i + 1, n):
            can = blocks[i] == blocks[j] and blocks[i] != '-'
            if svc[i] != svc[j]:
                da, db = days.get(svc[i], []), days.get(svc[j], [])
                can = can and bool([d for d in da if d in db])
            (a, b), (c, d) = spans[i], spans[j]
            # they share more than an instant
            want = I.And(can, a < d, c < b)
            k = pairs.get(('T%d' % i, 'T%d' % j), 0)
            total += k
            I.check(k == I.ite(want, 1, 0), 'pair %d %d' % (i, j))
    I.check(total == len(got), 'no other pair')
    I.log('pairs', sorted(pairs.items()))
    I.cover('conflict' if got else 'none')
    if 'GONE' in svc:
        I.cover('unknown service')


def h_blocks(I):
    n = I.choice('n', range(2, I.b['trips'] + 1))
    blocks = I.choice('blocks', BLOCKS[n])
    svc = [I.choice('svc%d' % i, ['S1', 'S2', 'S3', 'GONE'])
           for i in range(n)]
    run(I, n, blocks, svc, I.flag('shared'))


def h_ends(I):
    """Which times bound a trip; trips that are never compared."""
    s, r, acc, route, sp, stops = hlib.basic(3)
    spans = []
    for i in range(2):
        t = route.AddTrip(s, 'head', sp, 'T%d' % i)
        t.block_id = 'B'
        x = [I.int('t%d%d' % (i, k), 0, 200000) for k in range(4)]
        for k in range(3):
            I.assume(x[k] <= x[k + 1])
        I.assume(x[0] < x[3])
        hlib.put(s, t, stops[0], 5, arrival_secs=x[0], departure_secs=x[1])
        if I.flag('mid%d' % i):
            hlib.put(s, t, stops[1], 7)
        hlib.put(s, t, stops[2], 9, arrival_secs=x[2], departure_secs=x[3])
        spans.append((x[0], x[3]))
    # a trip without stop times and one not timed at its end
    t = route.AddTrip(s, 'head', sp, 'E0')
    t.block_id = 'B'
    t = route.AddTrip(s, 'head', sp, 'E1')
    t.block_id = 'B'
    hlib.put(s, t, stops[0], 1, arrival_secs=0, departure_secs=0)
    hlib.put(s, t, stops[1], 2)
    acc.clear()
    s.ValidateTrips(r)
    got = acc.of('OverlappingTripsInSameBlock')
    (a, b), (c, d) = spans
    I.log('n', len(got))
    I.check(len(got) == I.ite(I.And(a < d, c < b), 1, 0), 'reported iff')
    I.cover('conflict' if got else 'none')
