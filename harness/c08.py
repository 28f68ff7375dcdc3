"""C08: impossible stop times."""
import hlib
BOUNDS = {'quick': {'stops': 3, 'seqs': 3}, 'thorough': {'stops': 4, 'seqs': 4}}
COVERS = {'h_times': ['clean', 'travel', 'early departure', 'one time',
                      'untimed end'],
          'h_distances': ['clean', 'error', 'warning'],
          'h_sequences': ['repeated', 'distinct'],
          'h_text': ['bad', 'good']}


def feed(I):
    import transitfeed
    s, r, acc = hlib.schedule()
    s.AddAgency('A', 'http://a.example', 'America/Los_Angeles', 'AG')
    route = s.AddRoute('1', 'One', 3, 'R')
    sp = s.NewDefaultServicePeriod()
    sp.SetStartDate('20100101')
    sp.SetEndDate('20101231')
    sp.SetWeekdayService(True)
    trip = route.AddTrip(s, 'head', sp, 'T')
    stop = s.AddStop(40.0, -100.0, 'stop', 'ST')
    # another trip, never reported
    other = route.AddTrip(s, 'head', sp, 'T2')
    for k in range(2):
        other.AddStopTime(stop, stop_time='0%d:00:00' % (7 + k), problems=r)
    return s, r, acc, trip, stop


def put(s, trip, stop, seq, **kw):
    from transitfeed import stoptime
    r2, acc2 = hlib.reporter()
    st = stoptime.StopTime(r2, stop, stop_sequence=seq, **kw)
    trip._AddStopTimeObjectUnordered(st, s)
    return acc2


KINDS = ('InvalidValue', 'MissingValue', 'OtherProblem')


def h_times(I):
    s, r, acc, trip, stop = feed(I)
    n = I.choice('n', range(2, I.b['stops'] + 1))
    rows = []
    for i in range(n):
        kind = I.choice('kind%d' % i, ['both', 'none', 'arr', 'dep'])
        a = I.int('arr%d' % i, 0, 200000) if kind in ('both', 'arr') else None
        d = I.int('dep%d' % i, 0, 200000) if kind in ('both', 'dep') else None
        rows.append((a, d))
    order = list(range(n))
    if I.flag('reversed'):
        order.reverse()
    for i in order:
        acc2 = put(s, trip, stop, 2 * i + 1, arrival_secs=rows[i][0],
                   departure_secs=rows[i][1])
    acc.clear()
    s.ValidateTripStopTimes(r)
    got = [e for e in acc.problems if e.__class__.__name__ in KINDS]
    early = [a is not None and d is not None and d < a for a, d in rows]
    nod = [a is not None and d is None for a, d in rows]
    noa = [a is None and d is not None for a, d in rows]
    travel = []
    prev = 0
    for a, d in rows:
        bad = False
        if a is not None:
            if prev is not None:
                bad = a < prev
            if bad:
                bad = True
            else:
                prev = d
        travel.append(bad)
    untimed = [rows[0] == (None, None), rows[-1] == (None, None)]
    dep = [e for e in got if getattr(e, 'column_name', '') ==
           'departure_time']
    arr = [e for e in got if getattr(e, 'column_name', '') == 'arrival_time']
    oth = [e for e in got if e.__class__.__name__ == 'OtherProblem']
    I.log('problems', acc.kinds())
    I.check(len([e for e in dep if e.__class__.__name__ == 'InvalidValue'])
            == I.count(early) + I.count(untimed[:1]), 'early departure')
    I.check(len([e for e in dep if e.__class__.__name__ == 'MissingValue'])
            == I.count(nod), 'missing departure')
    I.check(len([e for e in arr if e.__class__.__name__ == 'MissingValue'])
            == I.count(noa), 'missing arrival')
    I.check(len([e for e in arr if e.__class__.__name__ == 'InvalidValue'])
            == I.count(untimed[1:]), 'untimed end')
    I.check(len(oth) == I.count(travel), 'time travel')
    I.check(len(got) == len(dep) + len(arr) + len(oth), 'other columns')
    I.check(all([e.IsError() for e in got]), 'severity')
    if not got:
        I.cover('clean')
    if oth:
        I.cover('travel')
    if I.any(early):
        I.cover('early departure')
    if nod.count(True):
        I.cover('one time')
    if untimed[0] or untimed[1]:
        I.cover('untimed end')


def h_distances(I):
    s, r, acc, trip, stop = feed(I)
    n = I.choice('n', range(1, I.b['stops'] + 2))
    ds = []
    for i in range(n):
        d = None
        if I.flag('given%d' % i):
            d = I.real('dist%d' % i, -50, 500, 4)
        ds.append(d)
    order = list(range(n))
    if I.flag('reversed'):
        order.reverse()
    for i in order:
        t = 1000 * (i + 1)
        put(s, trip, stop, i, arrival_secs=t, departure_secs=t,
            shape_dist_traveled=ds[i])
    acc.clear()
    s.ValidateTripStopTimes(r)
    got = acc.on('stoptimes.shape_dist_traveled')
    err, warn, best = [], [], None
    for d in ds:
        if d is None:
            continue
        if best is None:
            e, w = d < 0, False
        else:
            e, w = I.Or(d < 0, d < best), I.And(d >= 0, d == best)
        err.append(e)
        warn.append(w)
        if best is None:
            if d >= 0:
                best = d
        else:
            best = I.ite(d > best, d, best)
    I.log('problems', acc.kinds())
    I.check(len([e for e in got if e.IsError()]) == I.count(err),
            'distance errors')
    I.check(len([e for e in got if e.IsWarning()]) == I.count(warn),
            'distance warnings')
    if not got:
        I.cover('clean')
    for e in got:
        I.cover('error' if e.IsError() else 'warning')


def h_sequences(I):
    s, r, acc, trip, stop = feed(I)
    n = I.choice('n', range(2, I.b['seqs'] + 1))
    seqs = [I.int('seq%d' % i, 0, 30) for i in range(n)]
    for q in seqs:
        put(s, trip, stop, q, arrival_secs=30000, departure_secs=30000)
    acc.clear()
    s.ValidateTripStopTimes(r)
    got = acc.on('stop_sequence')
    # one report per repeated number
    dup = [I.And(I.any([seqs[j] == seqs[i] for j in range(n) if j != i]),
                 I.all([seqs[j] != seqs[i] for j in range(i)]))
           for i in range(n)]
    I.log('problems', acc.kinds())
    I.check(len(got) == I.count(dup), 'repeated sequence numbers')
    for e in got:
        I.check(I.any([I.And(x, e.value == q) for x, q in zip(dup, seqs)]),
                'number named')
        I.check(e.IsError(), 'severity')
    I.cover('repeated' if got else 'distinct')


def h_text(I):
    """Times given as text."""
    from transitfeed import stoptime
    s, r, acc, trip, stop = feed(I)
    opts = [None, '', '7:00:00', '07:59:59', '7:60:00', '25:00:01', 'x',
            '07:00']
    secs = [None, None, 25200, 28799, 'bad', 90001, 'bad', 'bad']
    i = I.choice('arr', range(len(opts)))
    j = I.choice('dep', range(len(opts)))
    acc.clear()
    st = stoptime.StopTime(r, stop, opts[i], opts[j], stop_sequence=1)
    a, d = secs[i], secs[j]
    want = []
    if a == 'bad':
        want.append(('InvalidValue', 'arrival_time', 0))
    if d == 'bad':
        want.append(('InvalidValue', 'departure_time', 0))
    if a is None and d not in (None, 'bad'):
        want.append(('MissingValue', 'arrival_time', 0))
    if d is None and a not in (None, 'bad'):
        want.append(('MissingValue', 'departure_time', 0))
    if a not in (None, 'bad') and d not in (None, 'bad') and d < a:
        want.append(('InvalidValue', 'departure_time', 0))
    want.sort()
    I.log('kinds', acc.kinds())
    I.check(acc.kinds() == want, 'reports of a stop time')
    I.check(st.arrival_secs == (None if a == 'bad' else a), 'arrival')
    I.check(st.departure_secs == (None if d == 'bad' else d), 'departure')
    I.cover('bad' if want else 'good')
