"""C56: trips grouped by their stop pattern, through edits."""
import hlib
BOUNDS = {'quick': {'ops': 3, 'trips': 3}, 'thorough': {'ops': 4, 'trips': 3}}
COVERS = {'h_edit': ['same', 'different', 'asked before'],
          'h_order': ['same', 'different']}
ASSUMPTIONS = ['different stop sequences hash apart']


def groups(route):
    return sorted([sorted([t.trip_id for t in ts])
                   for ts in route.GetPatternIdTripDict().values()])


def wanted(pats):
    by = {}
    for t in pats:
        by.setdefault(tuple(pats[t]), []).append(t)
    return sorted([sorted(by[p]) for p in by])


def h_edit(I):
    """Trips share a group iff they visit the same stops now."""
    s, r, acc, route, sp, stops = hlib.basic(2)
    pats, trips = {}, {}
    weekend = s.NewDefaultServicePeriod()
    weekend.SetWeekendService(True)
    for k in range(I.b['trips']):
        n = 'T%d' % k
        trips[n] = route.AddTrip(s, I.choice('head%d' % k, ['h', '']) if k == 1
                                 else 'h', weekend if k == 1 else sp, n)
        pats[n] = [[0, 1], [0, 1], [1]][k]
        for j, p in enumerate(pats[n]):
            hlib.put(s, trips[n], stops[p], j + 1, arrival_secs=60 * j,
                     departure_secs=60 * j)
    asked = False
    for o in range(I.b['ops']):
        op = I.choice('op%d' % o, ['ask', 'add', 'clear', 'stop'])
        if op == 'stop':
            break
        if op == 'ask':
            I.check(groups(route) == wanted(pats), 'groups')
            asked = True
            continue
        n = I.choice('t%d' % o, sorted(pats))
        if op == 'clear':
            trips[n].ClearStopTimes()
            pats[n] = []
        elif op == 'add':
            p = I.choice('p%d' % o, [0, 1])
            how = I.choice('how%d' % o, ['stop', 'row'])
            if how == 'stop':
                trips[n].AddStopTime(stops[p], schedule=s, problems=r,
                                     arrival_secs=6000, departure_secs=6000)
            else:
                hlib.put(s, trips[n], stops[p], 10 + o, arrival_secs=6000,
                         departure_secs=6000)
            pats[n] = pats[n] + [p]
    got = groups(route)
    I.log('groups', got)
    I.check(got == wanted(pats), 'groups')
    for n in pats:
        I.check([x.stop_id for x in trips[n].GetPattern()] ==
                ['ST%d' % p for p in pats[n]], 'pattern')
    if asked:
        I.cover('asked before')
    I.cover('same' if len(got) < len(pats) else 'different')


def h_order(I):
    """The order is that of the sequence numbers, not of the rows."""
    s, r, acc, route, sp, stops = hlib.basic(3)
    pats = {}
    for k in range(2):
        n = 'T%d' % k
        t = route.AddTrip(s, 'h', sp, n)
        rows = []
        for j in range(2):
            q = I.int('q%d_%d' % (k, j), 0, 20)
            p = I.choice('p%d_%d' % (k, j), [0, 1])
            for a, _ in rows:
                I.assume(I.Not(a == q))
            hlib.put(s, t, stops[p], q, arrival_secs=60, departure_secs=60)
            rows.append((q, p))
        done = []
        for q, p in rows:
            at = 0
            while at < len(done) and done[at][0] < q:
                at += 1
            done.insert(at, (q, p))
        pats[n] = [p for q, p in done]
    got = groups(route)
    I.check(got == wanted(pats), 'groups')
    I.cover('same' if len(got) < 2 else 'different')
