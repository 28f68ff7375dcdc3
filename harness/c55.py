"""C55: optional fields of stop times and the fields of trips."""
import hlib
BOUNDS = {'quick': {'text': 2, 'trip': 2, 'rows': 4, 'number': 3},
          'thorough': {'text': 3, 'trip': 3, 'rows': 5, 'number': 4}}
COVERS = {'h_codes': ['blank', 'known', 'unknown', 'no number'],
          'h_useless': ['useless', 'of use'],
          'h_distance': ['blank', 'number', 'no number'],
          'h_sequence': ['repeated', 'apart'],
          'h_beyond': ['beyond', 'within', 'no shape'],
          'h_trip': ['blank', 'valid', 'invalid'],
          'h_loaded': ['clean', 'reported'],
          'h_number': ['no number', 'negative', 'number']}


def blank(I, t):
    return I.all([c in ' \t' for c in t])


def whole(t):
    """Value of an integer text with outer blanks, or None."""
    cs = [t[i:i + 1] for i in range(len(t))]
    while cs and cs[0] == ' ':
        cs = cs[1:]
    while cs and cs[-1] == ' ':
        cs = cs[:-1]
    neg = False
    if cs and cs[0] in '+-':
        neg = bool(cs[0] == '-')
        cs = cs[1:]
    if not cs:
        return None
    v = 0
    for c in cs:
        if not c in '0123456789':
            return None
        v = 10 * v + ord(c) - 48
    return -v if neg else v


def h_codes(I):
    """Pickup, drop-off and timepoint codes."""
    from transitfeed import stoptime
    s, r, acc, route, sp, stops = hlib.basic(1)
    acc.clear()
    f = I.choice('field', ['pickup_type', 'drop_off_type', 'timepoint'])
    t = I.str('text', 0, I.b['text'], '0123459 -x')
    st = stoptime.StopTime(r, stops[0], arrival_secs=60, departure_secs=60,
                           **{f: t})
    top = 1 if f == 'timepoint' else 3
    got = acc.on(f)
    I.log('kinds', acc.kinds())
    I.check(len(got) == len(acc.problems) and len(got) <= 1, 'one report')
    value = getattr(st, f)
    if blank(I, t):
        I.check(not got and value is None, 'blank')
        I.cover('blank')
        return
    v = whole(t)
    if v is None:
        I.check(len(got) == 1 and got[0].IsError() and value is None,
                'not a number')
        I.cover('no number')
        return
    ok = I.And(v >= 0, v <= top)
    I.check(I.Iff(ok, not got), 'reported iff unknown')
    for e in got:
        I.check(e.IsWarning() and e.value == t and
                e.__class__.__name__ == 'InvalidValue', 'the report')
    if not got:
        I.check(value == v, 'value')
    I.cover('unknown' if got else 'known')


def h_useless(I):
    """A stop time nobody can use and that tells no time."""
    from transitfeed import stoptime
    s, r, acc, route, sp, stops = hlib.basic(1)
    acc.clear()
    p = I.int('p', 0, 3)
    d = I.int('d', 0, 3)
    kw = {}
    timed = I.choice('timed', ['none', 'both', 'arrival', 'departure'])
    at = I.int('at', 0, 100000)
    if timed in ('both', 'arrival'):
        kw['arrival_secs'] = at
    if timed in ('both', 'departure'):
        kw['departure_secs'] = at
    stoptime.StopTime(r, stops[0], pickup_type=p, drop_off_type=d, **kw)
    got = [e for e in acc.of('OtherProblem') if 'no purpose' in
           ' '.join(e.description.split())]
    I.check(I.Iff(I.And(p == 1, d == 1, timed == 'none'), len(got) == 1),
            'reported iff of no use')
    I.check(all([e.IsWarning() for e in got]), 'severity')
    I.check(len(acc.of('OtherProblem')) == len(got), 'other reports')
    I.cover('useless' if got else 'of use')


def h_distance(I):
    """Distance texts."""
    from transitfeed import stoptime
    s, r, acc, route, sp, stops = hlib.basic(1)
    acc.clear()
    t = I.str('text', 0, I.b['text'] + 1, '019.-x')
    st = stoptime.StopTime(r, stops[0], arrival_secs=60, departure_secs=60,
                           shape_dist_traveled=t)
    got = acc.on('shape_dist_traveled')
    I.check(len(got) == len(acc.problems) and len(got) <= 1, 'one report')
    if len(t) == 0:
        I.check(not got and st.shape_dist_traveled is None, 'blank')
        I.cover('blank')
        return
    # sign, digits, point, digits
    u = t[1:] if t[0] in '-' else t
    ok = False
    for point in range(len(u) + 1):
        # a point at that place, or none at all
        left = u[:point]
        right = u[point + 1:]
        form = I.all([c in '019' for c in left + right])
        if point < len(u):
            form = I.And(form, u[point] == '.')
        ok = I.Or(ok, I.And(form, len(left) + len(right) > 0))
    I.check(I.Iff(ok, not got), 'reported iff no number')
    for e in got:
        I.check(e.IsError() and e.value == t, 'the report')
    if not got and whole(t) is not None:
        I.check(st.shape_dist_traveled == whole(t), 'value')
    I.cover('no number' if got else 'number')


def h_sequence(I):
    """Repeated sequence numbers of a trip, once per number."""
    s, r, acc, route, sp, stops = hlib.basic(1)
    seqs = {}
    for name in ('T', 'U'):
        trip = route.AddTrip(s, 'h', sp, name)
        n = I.b['rows'] if name == 'T' else 2
        seqs[name] = [I.int('%s%d' % (name, k), 0, 9) for k in range(n)]
        for q in seqs[name]:
            hlib.put(s, trip, stops[0], q, arrival_secs=60,
                     departure_secs=60)
    acc.clear()
    s.GetTrip('T').ValidateNoDuplicateStopSequences(r)
    got = acc.on('stop_sequence')
    I.check(len(got) == len(acc.problems), 'other reports')
    q = seqs['T']
    values = [e.value for e in got]
    reps = [I.any([q[a] == q[b] for b in range(len(q)) if a != b])
            for a in range(len(q))]
    for a in range(len(q)):
        I.check(I.Iff(reps[a], I.any([v == q[a] for v in values])),
                'reported iff repeated')
    for v in values:
        I.check(I.any([v == x for x in q]), 'a number of the trip')
        I.check(I.count([v == w for w in values]) == 1, 'once')
    I.check(all([e.IsError() for e in got]), 'severity')
    I.cover('repeated' if got else 'apart')


def h_beyond(I):
    """A last distance beyond the end of the shape."""
    from transitfeed import shape
    s, r, acc, route, sp, stops = hlib.basic(1)
    util = I.load('transitfeed.util')
    I.patch(util, 'ApproximateDistance', lambda a, b, c, d: 0.0)
    trip = route.AddTrip(s, 'h', sp, 'T')
    ends = [I.real('e%d' % k, 0, 100, 4) for k in range(2)]
    single = I.flag('one point')
    if single:
        ends[1] = ends[0]
    else:
        I.assume(ends[0] < ends[1])
    if I.flag('shape'):
        x = shape.Shape('SH')
        x.AddPoint(10.0, 20.0, ends[0])
        if not single:
            x.AddPoint(10.1, 20.0, ends[1])
        s.AddShapeObject(x)
        trip.shape_id = 'SH'
    ds = [I.real('d%d' % k, 1, 200, 4) if I.flag('has%d' % k) else None
          for k in range(2)]
    for k in range(2):
        hlib.put(s, trip, stops[0], k + 1, arrival_secs=60 + k,
                 departure_secs=60 + k, shape_dist_traveled=ds[k])
    if ds[0] is not None and ds[1] is not None:
        I.assume(ds[0] < ds[1])
    acc.clear()
    trip.ValidateChildren(r)
    got = [e for e in acc.of('OtherProblem')
           if 'shape_dist_traveled' in e.description]
    I.check(len(acc.of('OtherProblem')) == len(got), 'other reports')
    if not trip.shape_id:
        I.check(not got, 'no shape')
        I.cover('no shape')
        return
    over = False if ds[1] is None else ds[1] > ends[1]
    I.check(I.Iff(over, len(got) == 1), 'reported iff beyond')
    for e in got:
        I.check(e.IsWarning() and 'trip_id=T' in e.description and
                'SH' in e.description, 'the report')
    I.cover('beyond' if got else 'within')


def h_trip(I):
    """Fields of a trip record."""
    from transitfeed import trip
    s, r, acc, route, sp, stops = hlib.basic(1)
    acc.clear()
    d = {'route_id': 'R', 'service_id': sp.service_id, 'trip_id': 'T'}
    f = I.choice('field', ['route_id', 'service_id', 'trip_id',
                           'direction_id', 'bikes_allowed',
                           'wheelchair_accessible'])
    how = I.choice('how', ['absent', 'text'])
    if how == 'absent':
        d.pop(f, None)
        t = None
    else:
        t = d[f] = I.str('text', 0, I.b['trip'], '0123 -R')
    x = trip.Trip(field_dict=d)
    if I.flag('in_schedule') and f != 'trip_id':
        s.AddTripObject(x, r)
        acc.clear()
    loose = x._schedule is None
    x.Validate(r, validate_children=False)
    got = acc.on(f)
    I.log('kinds', acc.kinds())
    I.check(len(got) == len(acc.problems), 'other reports')
    b = t is None or blank(I, t)
    if f.endswith('_id') and f != 'direction_id':
        miss = acc.of('MissingValue')
        I.check(I.Iff(b, len(miss) == 1), 'missing')
        I.check(len(miss) <= 1, 'once')
        if loose:
            I.check(len(got) == len(miss), 'other report')
        elif not b:
            ok = {'route_id': t == 'R',
                  'service_id': t == sp.service_id}.get(f, False)
            I.check(I.Iff(ok, len(got) == 0), 'unknown reference')
        I.cover('blank' if b else 'valid')
        return
    top = 1 if f == 'direction_id' else 2
    ok = False
    if t is not None:
        ok = I.any([t == '%d' % k for k in range(top + 1)])
    I.check(I.Iff(I.Or(b, ok), not got), 'reported iff invalid')
    I.check(len(got) <= 1, 'once')
    for e in got:
        I.check(e.__class__.__name__ == 'InvalidValue' and e.value == t,
                'the report')
    I.cover('blank' if b else 'invalid' if got else 'valid')


def h_loaded(I):
    """The same checks on a loaded feed."""
    cols = ['pickup_type', 'drop_off_type', 'timepoint',
            'shape_dist_traveled', 'direction_id', 'bikes_allowed']
    col = I.choice('col', cols)
    text = I.choice('text', ['', '0', '1', '2', '3', '4', 'x', '1.5', '-1'])
    st = ['trip_id,arrival_time,departure_time,stop_id,stop_sequence',
          'T1,08:00:00,08:00:00,S1,1', 'T1,08:10:00,08:10:00,S2,2']
    tr = ['route_id,service_id,trip_id', 'R1,SV,T1']
    if col in cols[:4]:
        k = I.choice('row', [1, 2])
        st[0] += ',' + col
        st[k] += ',' + text
        st[3 - k] += ','
    else:
        tr[0] += ',' + col
        tr[1] += ',' + text
    s, r, acc = hlib.load_feed(hlib.feed({'stop_times.txt': st,
                                          'trips.txt': tr}))
    allowed = {'pickup_type': '0123', 'drop_off_type': '0123',
               'timepoint': '01', 'direction_id': '01',
               'bikes_allowed': '012'}
    if col == 'shape_dist_traveled':
        ok = text != 'x'
    else:
        ok = text in allowed[col]
    got = acc.on(col)
    I.check(len(got) == len(acc.problems), 'other reports')
    I.check(len(got) == (0 if ok else 1), 'reported iff invalid')
    for e in got:
        I.check(e.row_num == (k + 1 if col in cols[:4] else 2), 'line')
    I.check(s.GetTrip('T1').GetCountStopTimes() == 2, 'stop times')
    I.cover('reported' if got else 'clean')


def h_number(I):
    """Sequence numbers as they stand in the file."""
    t = I.str('text', 0, I.b['number'], '0129- x.')
    s, r, acc = hlib.load_feed(hlib.feed({'stop_times.txt': [
        'trip_id,arrival_time,departure_time,stop_id,stop_sequence',
        'T1,08:00:00,08:00:00,S1,' + t, 'T1,08:30:00,08:30:00,S2,70',
        'T1,09:00:00,09:00:00,S1,80']}), extra_validation=False)
    u = t.strip()
    neg = len(u) > 0 and u[:1] == '-'
    digits = u[1:] if neg else u
    number = len(digits) > 0 and I.all(
        [I.And(digits[i:i + 1] >= '0', digits[i:i + 1] <= '9')
         for i in range(len(digits))])
    got = acc.on('stop_sequence')
    I.check(len(acc.problems) == len(got), 'nothing else')
    trip = s.GetTrip('T1')
    if not number:
        I.check(len(got) == 1, 'no number')
        I.check(trip.GetCountStopTimes() == 2, 'not used')
        I.cover('no number')
        return
    v = 0
    for i in range(len(digits)):
        v = v * 10 + (ord(digits[i:i + 1]) - 48)
    if neg:
        v = -v
    I.check(len(got) == (1 if v < 0 else 0), 'below zero')
    for e in got:
        I.check(e.GetType() == 0 and e.row_num == 2, 'where')
    I.cover('negative' if v < 0 else 'number')
    sts = [st.stop_sequence for st in trip.GetStopTimes()]
    I.check(len(sts) == 3 and I.count([q == v for q in sts]) == 1, 'used')
    I.check(I.And(sts[0] <= sts[1], sts[1] <= sts[2]), 'in order')
