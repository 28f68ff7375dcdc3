"""C22: what is written loads back."""
import hlib
BOUNDS = {'quick': {'days': 4, 'text': 3}, 'thorough': {'days': 7, 'text': 4}}
COVERS = {'h_stop_times': ['timed', 'untimed', 'zero'],
          'h_calendar': ['calendar', 'exceptions only', 'both'],
          'h_frequency': ['frequency'], 'h_fare': ['fare', 'unlimited'],
          'h_shape': ['shape'], 'h_transfer': ['transfer'],
          'h_text': ['plain', 'quoted'], 'h_trip': ['trip'],
          'h_feed_info': ['feed info', 'none']}
SECONDS = {'quick': 400}


def clean(n_stops=2):
    s, r, acc, route, sp, stops = hlib.basic(n_stops)
    sp.SetServiceId('SV')
    s.service_periods.clear()
    s.AddServicePeriodObject(sp)
    route.AddTrip(s, 'head', sp, 'T0')
    return s, r, acc, route, sp, stops


def again(s):
    """The schedule read back from what is written, and its reports."""
    from transitfeed import loader
    from StringIO import StringIO
    f = StringIO()
    s.WriteGoogleTransitFeed(f)
    f.seek(0)
    r, acc = hlib.reporter()
    return loader.Loader(feed_path=f, problems=r).Load(), acc


def h_stop_times(I):
    from transitfeed import stoptime
    s, r, acc, route, sp, stops = clean(3)
    t = route.AddTrip(s, 'head', sp, 'T1')
    which = I.choice('which', ['times', 'types', 'rest'])
    want = []
    for i in range(2 if which == 'types' else 3):
        kw = {'stop_sequence': 3 * i + 1}
        a, d = 3600 * i, 3600 * i + 60
        if which == 'times':
            if i == 1 and I.flag('untimed'):
                a = d = None
                I.cover('untimed')
            else:
                if i == 0:
                    d = I.int('dep0', 0, 400000)
                    a = 0
                elif i == 1:
                    a = I.int('arr1', 36000, 86399)
                    d = a + I.choice('dwell', [0, 5])
                else:
                    a = I.int('arr2', 360000, 3599999)
                    d = 3599999
                I.cover('timed')
        elif which == 'types':
            for k in ('pickup_type', 'drop_off_type', 'timepoint'):
                v = I.choice('%s%d' % (k, i), [0, 1, None] if i else
                             [0, 1, 2, None] if k == 'pickup_type' else
                             [0, 1, 3, None] if k == 'drop_off_type' else
                             [0, 1, None])
                kw[k] = v
                if v == 0:
                    I.cover('zero')
        else:
            kw['shape_dist_traveled'] = I.real('dist%d' % i, 0, 5000, 64) \
                if I.flag('given%d' % i) else None
            if i < 2:
                kw['stop_headsign'] = I.choice('head%d' % i, [None, 'Down'])
            if i == 0:
                kw['stop_sequence'] = I.int('seq', 0, 2)
        st = stoptime.StopTime(r, stops[i], arrival_secs=a, departure_secs=d,
                               **kw)
        t._AddStopTimeObjectUnordered(st, s)
        want.append((st, stops[i].stop_id))
    s2, acc2 = again(s)
    I.check(not acc2.problems, 'loads cleanly')
    got = s2.GetTrip('T1').GetStopTimes()
    I.check(len(got) == len(want), 'number')
    for g, (w, sid) in zip(got, want):
        I.check(g.stop_id == sid, 'stop')
        for k in ('arrival_secs', 'departure_secs', 'stop_sequence',
                  'pickup_type', 'drop_off_type', 'timepoint',
                  'shape_dist_traveled'):
            x, y = getattr(g, k), getattr(w, k)
            I.check((x is None and y is None) or
                    (x is not None and y is not None and x == y), k)
        I.check((g.stop_headsign or '') == (w.stop_headsign or ''),
                'headsign')


def h_calendar(I):
    from transitfeed import serviceperiod
    s, r, acc, route, sp, stops = clean()
    p = serviceperiod.ServicePeriod('X')
    kind = I.choice('kind', ['calendar', 'exceptions only', 'both'])
    if kind != 'exceptions only':
        p.SetStartDate('20090704')
        p.SetEndDate(I.choice('end', ['20090704', '20100228']))
        for k in range(I.b['days']):
            p.SetDayOfWeekHasService(k, I.bool('day%d' % k))
        p.SetDayOfWeekHasService(6 if I.flag('sunday') else 5)
    if kind != 'calendar':
        for d in ('20090101', '20120229', '20090704'):
            x = I.choice('x' + d, [None, True, False])
            if x is not None:
                p.SetDateHasService(d, x)
    if kind == 'exceptions only':
        p.SetDateHasService('20080101', True)
    s.AddServicePeriodObject(p, r)
    s2, acc2 = again(s)
    I.check(not acc2.problems, 'loads cleanly')
    I.check(len(s2.GetServicePeriodList()) == 2, 'services')
    q = s2.GetServicePeriod('X')
    I.check(q.day_of_week == p.day_of_week, 'weekdays')
    I.check(q.start_date == p.start_date and q.end_date == p.end_date,
            'dates')
    I.check(sorted(q.date_exceptions) == sorted(p.date_exceptions) and
            not [d for d in p.date_exceptions if q.date_exceptions[d][0] !=
                 p.date_exceptions[d][0]], 'exceptions')
    I.cover(kind)


def h_frequency(I):
    s, r, acc, route, sp, stops = clean()
    t = route.AddTrip(s, 'head', sp, 'T1')
    n = I.choice('n', [1, 2])
    want = []
    for i in range(n):
        if i == 0:
            a = I.int('start', 0, 100000)
            b = I.int('end', 100001, 359999)
            h = I.int('headway', 1, 9999)
        else:
            a = I.int('start1', 36000, 80000)
            b = 1000000
            h = 600
        e = I.choice('exact%d' % i, [0, 1])
        t.AddFrequency(a, b, h, e, r)
        want.append((a, b, h, e))
    s2, acc2 = again(s)
    I.check(not acc2.problems, 'loads cleanly')
    got = s2.GetTrip('T1').GetFrequencyTuples()
    I.check(len(got) == n, 'number')
    for g, w in zip(got, want):
        I.check(I.And(g[0] == w[0], g[1] == w[1], g[2] == w[2]), 'window')
        I.check(int(g[3]) == w[3], 'exact times')
    I.cover('frequency')


def h_fare(I):
    from transitfeed import fareattribute, farerule
    s, r, acc, route, sp, stops = clean()
    s.stops['ST0'].zone_id = 'Z0'
    s.fare_zones['Z0'] = True
    price = I.choice('price', ['0', '0.0', '1.5', '12'])
    pm = I.choice('pm', [0, 1])
    tr = I.choice('transfers', [None, 0, 1, 2])
    dur = I.int('duration', 0, 90000) if I.flag('given') else None
    if dur is not None:
        I.assume(price != '0.0')
    f = fareattribute.FareAttribute('F', price, 'USD', pm, tr, dur)
    s.AddFareAttributeObject(f, r)
    for i in range(I.choice('rules', [0, 1, 2])):
        k = I.choice('rule%d' % i, range(4))
        s.AddFareRuleObject(farerule.FareRule(
            'F', [None, 'R'][k % 2], [None, 'Z0'][k // 2],
            'Z0' if i and k == 3 else None, 'Z0' if i else None), r)
    I.check(not acc.problems, 'valid')
    s2, acc2 = again(s)
    I.check(not acc2.problems, 'loads cleanly')
    g = s2.GetFareAttribute('F')
    I.check(g.price == f.price and g.payment_method == pm, 'price')
    I.check(g.currency_type == 'USD' and g.transfers == tr, 'transfers')
    I.check(dur is None if g.transfer_duration is None else
            dur is not None and g.transfer_duration == dur, 'duration')
    I.check([[x.fare_id, x.route_id, x.origin_id, x.destination_id,
              x.contains_id] for x in g.rules] ==
            [[x.fare_id, x.route_id, x.origin_id, x.destination_id,
              x.contains_id] for x in f.rules], 'rules')
    I.cover('fare')
    if tr is None:
        I.cover('unlimited')


def h_shape(I):
    from transitfeed import shape
    s, r, acc, route, sp, stops = clean()
    sh = shape.Shape('S')
    n = 3
    want = []
    d = 0
    for i in range(n):
        if I.flag('given%d' % i):
            d = d + I.real('dist%d' % i, 0, 5000, 64)
            x = d
        else:
            x = None
        sh.AddPoint(10.5 + i, -20.25 - i, x, r)
        want.append(x)
    s.AddShapeObject(sh, r)
    t = route.AddTrip(s, 'head', sp, 'T1')
    t.shape_id = 'S'
    I.check(not acc.problems, 'valid')
    s2, acc2 = again(s)
    I.check(not acc2.problems, 'loads cleanly')
    g = s2.GetShape('S')
    I.check([p[:2] for p in g.points] == [p[:2] for p in sh.points],
            'places')
    for i in range(n):
        x = g.distance[i]
        I.check((x is None) == (want[i] is None), 'given')
        if x is not None:
            I.check(x == want[i], 'distance')
    I.check(g.max_distance == sh.max_distance, 'maximum')
    I.check(s2.GetTrip('T1').shape_id == 'S', 'shape of the trip')
    I.cover('shape')


def h_transfer(I):
    from transitfeed import transfer
    s, r, acc, route, sp, stops = clean()
    n = I.choice('n', [1, 2])
    want = []
    for i in range(n):
        ty = I.choice('type%d' % i, [None, 0, 1, 2, 3])
        m = I.int('min%d' % i, 0, 9000) if ty == 2 else None
        t = transfer.Transfer(None, 'ST%d' % i, 'ST%d' % (1 - i), ty, m)
        s.AddTransferObject(t, r)
        want.append((t.from_stop_id, t.to_stop_id, ty or 0, m))
    s2, acc2 = again(s)
    I.check(not [e for e in acc2.problems if e.__class__.__name__ not in
                 ('TransferDistanceTooBig', 'TransferWalkingSpeedTooFast')],
            'loads cleanly')
    got = s2.GetTransferList()
    I.check(len(got) == n, 'number')
    for w in want:
        g = [x for x in got if x.from_stop_id == w[0]]
        I.check(len(g) == 1 and g[0].to_stop_id == w[1] and
                g[0].transfer_type == w[2], 'transfer')
        x = g[0].min_transfer_time
        I.check(x in (None, '') if w[3] is None else x == w[3], 'time')
    I.cover('transfer')


def h_text(I):
    """Texts survive quoting."""
    s, r, acc, route, sp, stops = clean()
    x = I.str('text', 1, I.b['text'], 'a", \'')
    I.assume(I.And(I.Not(x.startswith(' ')), I.Not(x.endswith(' '))))
    col = I.choice('column', ['stop_name', 'stop_desc', 'stop_id',
                              'trip_headsign', 'route_long_name',
                              'agency_name', 'trip_id'])
    t = route.AddTrip(s, 'head', sp, x if col == 'trip_id' else 'T1')
    if col == 'stop_id':
        from transitfeed import stop
        s.AddStopObject(stop.Stop(30.0, 40.0, 'N', x))
    elif col in ('stop_name', 'stop_desc'):
        setattr(stops[0], col, x)
    elif col == 'trip_headsign':
        t.trip_headsign = x
    elif col == 'route_long_name':
        route.route_long_name = x
    elif col == 'agency_name':
        s.GetAgency('AG').agency_name = x
    s2, acc2 = again(s)
    I.check(not acc2.problems, 'loads cleanly')
    if col == 'stop_id':
        I.check(s2.GetStop(x).stop_name == 'N' and len(s2.stops) == 3, 'stop')
    elif col in ('stop_name', 'stop_desc'):
        I.check(s2.GetStop('ST0')[col] == x, col)
        I.check(s2.GetStop('ST1')[col] == stops[1][col], 'other stop')
    elif col == 'trip_headsign':
        I.check(s2.GetTrip('T1')[col] == x, col)
    elif col == 'route_long_name':
        I.check(s2.GetRoute('R')[col] == x, col)
    elif col == 'agency_name':
        I.check(s2.GetAgency('AG')[col] == x, col)
    else:
        I.check(s2.GetTrip(x).trip_headsign == 'head', col)
    I.cover('quoted' if '"' in x or ',' in x else 'plain')


def h_trip(I):
    """Fields of trips, stops and routes, zero values included."""
    s, r, acc, route, sp, stops = clean()
    t = route.AddTrip(s, 'head', sp, 'T1')
    u = route.AddTrip(s, 'head', sp, 'T2')
    want = {}
    for k, vs in (('direction_id', [0, 1, None]), ('block_id', ['0', None]),
                  ('bikes_allowed', [0, 2, None]),
                  ('wheelchair_accessible', [1, None])):
        v = I.choice(k, vs)
        want[k] = '' if v is None else '%s' % v
        if v is not None:
            setattr(t, k, v)
    lt = I.choice('location_type', [0, 1, None])
    if lt is not None:
        stops[0].location_type = lt
    rt = I.choice('route_type', [0, 3])
    route.route_type = rt
    s2, acc2 = again(s)
    I.check(not acc2.problems, 'loads cleanly')
    for k in want:
        I.check(s2.GetTrip('T1')[k] == want[k], k)
        I.check(s2.GetTrip('T2')[k] == '', 'other trip')
    I.check(s2.GetStop('ST0').location_type == (lt or 0), 'location type')
    I.check(s2.GetRoute('R').route_type == rt, 'route type')
    I.check(s2.GetStop('ST1').stop_lat == 11.0 and
            s2.GetStop('ST1').stop_lon == 21.0, 'place')
    I.cover('trip')


def h_feed_info(I):
    from transitfeed import feedinfo
    s, r, acc, route, sp, stops = clean()
    have = I.choice('have', ['yes', 'no', 'header only'])
    if have == 'yes':
        f = feedinfo.FeedInfo({'feed_publisher_name': 'P',
                               'feed_publisher_url': 'http://p',
                               'feed_lang': 'en'})
        s.AddFeedInfoObject(f, r)
        if I.flag('dates'):
            f.feed_start_date = '20100101'
            f.feed_end_date = '20100630'
    elif have == 'header only':
        s, acc = hlib.load_feed(hlib.feed({'feed_info.txt': [
            'feed_publisher_name,feed_publisher_url,feed_lang']}))[::2]
        I.check(not acc.problems, 'empty table')
    s2, acc2 = again(s)
    I.check(not acc2.problems, 'loads cleanly')
    if have == 'yes':
        g = s2.feed_info
        I.check([g[k] for k in sorted(g._FIELD_NAMES)] ==
                [f[k] for k in sorted(f._FIELD_NAMES)], 'feed info')
        I.cover('feed info')
    else:
        I.check(s2.feed_info is None, 'no feed info')
        I.cover('none')
