"""C34: references in a merged feed follow renamed records."""
import hlib
from c33 import agency, two, merger, image
BOUNDS = {'quick': {'stops': 2, 'deep': 0}, 'thorough': {'stops': 3,
                                                         'deep': 1}}
COVERS = {'h_trip': ['route renamed', 'route shared', 'shape renamed',
                     'trip renamed', 'route swapped'],
          'h_times': ['timed', 'untimed', 'stop renamed'],
          'h_route': ['agency renamed', 'agency shared', 'blank'],
          'h_station': ['station renamed', 'station shared'],
          'h_zone': ['shared', 'renamed', 'none'],
          'h_fare': ['fare renamed', 'fare shared', 'rule shared'],
          'h_block': ['same name', 'none'],
          'h_written': ['read back']}
SECONDS = {'quick': 500}


def route(s, ident, name='1', **kw):
    import transitfeed as tf
    d = {'route_id': ident, 'route_short_name': name,
         'route_long_name': 'Long', 'route_type': 3, 'agency_id': 'AG'}
    d.update(kw)
    x = tf.Route(field_dict=d)
    s.AddRouteObject(x)
    return x


def service(s, year, ident='SV'):
    import transitfeed as tf
    p = tf.ServicePeriod(ident)
    p.SetDateHasService(year + '0101')
    s.AddServicePeriodObject(p)
    return p


def stop(s, ident, lat, **kw):
    import transitfeed as tf
    d = {'stop_id': ident, 'stop_name': ident, 'stop_lat': lat,
         'stop_lon': 20.0}
    d.update(kw)
    x = tf.Stop(field_dict=d)
    s.AddStopObject(x)
    return x


def trip(s, ident, r='R', p='SV', **kw):
    import transitfeed as tf
    d = {'trip_id': ident, 'route_id': r, 'service_id': p}
    d.update(kw)
    x = tf.Trip(field_dict=d)
    s.AddTripObject(x)
    return x


def shape(s, ident, lat):
    import transitfeed as tf
    x = tf.Shape(ident)
    x.AddPoint(lat, 20.0, 0)
    x.AddPoint(lat + 0.001, 20.0, 1)
    s.AddShapeObject(x)
    return x


def h_trip(I):
    a, b = two(I)
    trips = []
    for s, t in ((a, 'a'), (b, 'b')):
        # each route may collide with either route of the other feed
        ids = ['R', 'Q'] if t == 'a' else I.choice(
            'routes', [['R', 'Q'], ['Q', 'R'], ['R', 'V'], ['V', 'W']])
        names = [I.str('name%s%d' % (t, i), 1, 1, '12') if t == 'b'
                 else str(i + 1) for i in range(2)]
        rs = [route(s, i, n) for i, n in zip(ids, names)]
        ps = [service(s, '2010' if t == 'a' else '2011', k)
              for k in ('SV', I.choice('service' + t, ['S2', 'S3']))]
        hs = [shape(s, 'H', 40.0 if t == 'a' else I.choice(
            'place', [40.0, 50.0])), shape(s, 'G' + t, 60.0)]
        for i in range(2):
            k = I.concrete(I.int('route%s%d' % (t, i), 0, 1)) if i == 0 \
                else 1
            sv = I.choice('sv%s%d' % (t, i), [0, 1]) if i == 0 else 0
            sh = I.choice('shape%s%d' % (t, i), [0, 1, None]) if (
                i == 0 and t == 'b') else 0
            x = trip(s, ['T', 'U'][i] if t == 'a' else ['T', 'X'][i],
                     rs[k].route_id, ps[sv].service_id,
                     **({} if sh is None else {'shape_id': hs[sh].shape_id}))
            trips.append((x, t, rs[k], ps[sv],
                          None if sh is None else hs[sh]))
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    runs = {}
    for x, t, r, p, h in trips:
        y = image(fm, x, t)
        I.check(m.trips.get(y.trip_id) is y, 'trip is in the merged feed')
        mr = image(fm, r, t)
        I.check(y.route_id == mr.route_id, 'its route')
        I.check(m.GetRoute(y.route_id) is mr, 'route is in the merged feed')
        runs.setdefault(mr.route_id, []).append(y)
        mp = image(fm, p, t)
        I.check(y.service_id == mp.service_id, 'its service')
        I.check(m.GetServicePeriod(y.service_id) is mp, 'service is there')
        I.check(y.service_period is mp, 'service of the trip')
        if h is None:
            I.check(not y.shape_id, 'no shape')
        else:
            mh = image(fm, h, t)
            I.check(y.shape_id == mh.shape_id and
                    m.GetShape(y.shape_id) is mh, 'its shape')
            if mh.shape_id != h.shape_id:
                I.cover('shape renamed')
        if mr.route_id != r.route_id:
            I.cover('route renamed')
        if y.trip_id != x.trip_id:
            I.cover('trip renamed')
    for mr in m.GetRouteList():
        I.check(sorted([y.trip_id for y in mr.trips]) ==
                sorted([y.trip_id for y in runs.get(mr.route_id, [])]),
                'trips of the route')
        I.check(all([y is m.GetTrip(y.trip_id) for y in mr.trips]),
                'the merged trips')
    if len(m.GetRouteList()) < 4:
        I.cover('route shared')
    if b.routes.keys() == a.routes.keys() and len(m.GetRouteList()) == 4:
        I.cover('route swapped')


def h_times(I):
    from transitfeed import stoptime
    a, b = two(I)
    d = I.real('distance', 0, 20, 64)
    hlib.distances(I, {(10, 11): d}, 100.0)
    originals = []
    for s, t in ((a, 'a'), (b, 'b')):
        route(s, 'R')
        service(s, '2010' if t == 'a' else '2011')
        stops = [stop(s, 'S0', 10.0 if t == 'a' else 11.0),
                 stop(s, 'S1', 30.0), stop(s, 'S2', 50.0)]
        x = trip(s, 'T')
        n = I.b['stops'] + 1
        want = []
        which = I.choice('which' + t, ['times', 'types', 'rest']) \
            if t == 'b' else 'plain'
        for i in range(n):
            kw = {}
            st = stops[i % 2 if which == 'rest' else i % 3]
            u = v = 3600 * (i + 1)
            if which == 'times':
                if i == 1 and I.flag('untimed'):
                    u = v = None
                    I.cover('untimed')
                else:
                    u = I.int('time%d' % i, 3600 * i, 3600 * i + 1800)
                    v = u + (I.choice('dwell1', [0, 5]) if i == 1 else 0)
                    I.cover('timed')
            elif which == 'types' and i == 1:
                kw['pickup_type'] = I.choice('pick%d' % i, [None, 0, 1, 2])
                kw['drop_off_type'] = I.choice('drop%d' % i, [None, 0, 3])
                kw['timepoint'] = I.choice('tp%d' % i, [None, 0, 1])
            elif which == 'rest':
                kw['stop_headsign'] = I.str('head%d' % i, 0, 1, 'pq') \
                    if i < 2 else None
                kw['shape_dist_traveled'] = I.choice(
                    'dist%d' % i, [None, 0.0, 2.5])
            o = stoptime.StopTime(None, st, arrival_secs=u, departure_secs=v,
                                  stop_sequence=[0, 5, 7, 9][i], **kw)
            x._AddStopTimeObjectUnordered(o, s)
            want.append((st, u, v, kw))
        if t == 'b' and I.flag('headway'):
            x.AddFrequency('07:00:00', '09:00:00', I.int('headway s', 1, 900),
                           I.choice('exact', [0, 1]))
        originals.append((x, t, want))
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    for x, t, want in originals:
        y = image(fm, x, t)
        got = y.GetStopTimes()
        I.check(len(got) == len(want), 'as many stop times')
        for o, (st, u, v, kw) in zip(got, want):
            ms = image(fm, st, t)
            I.check(o.stop is ms and m.GetStop(o.stop_id) is ms, 'the stop')
            if ms.stop_id != st.stop_id:
                I.cover('stop renamed')
            I.check(o.arrival_secs == u, 'arrival')
            I.check(o.departure_secs == v, 'departure')
            for k in kw:
                p, q = getattr(o, k), kw[k]
                I.check(p == q or (q is None and p in (None, '')) or
                        (q == '' and p is None), k)
        I.check(y.GetFrequencyTuples() == x.GetFrequencyTuples(),
                'frequencies')


def h_route(I):
    a, b = two(I)
    routes = []
    for s, t in ((a, 'a'), (b, 'b')):
        two_ = I.flag('second' + t)
        ag = [s.GetAgency('AG')]
        if t == 'b' and I.flag('change'):
            ag[0].agency_name = I.str('agency', 2, 2, 'Ag')
        if two_:
            ag.append(agency(s, I.choice('ag' + t, ['A2', 'A3']),
                             name='Two'))
        for i in range(2):
            k = ag[I.choice('of%s%d' % (t, i), range(len(ag)))]
            blank = len(ag) == 1 and i == 0 and I.flag('blank' + t)
            x = route(s, ['R', 'Q'][i] if t == 'a' else ['R', 'V'][i],
                      agency_id='' if blank else k.agency_id)
            routes.append((x, t, k))
            if blank:
                I.cover('blank')
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    for x, t, k in routes:
        y = image(fm, x, t)
        I.check(m.routes.get(y.route_id) is y, 'route is in the merged feed')
        g = image(fm, k, t)
        I.check(y.agency_id == g.agency_id, 'its agency')
        I.check(m.GetAgency(y.agency_id) is g, 'agency is in the merged feed')
        I.cover('agency shared' if g.agency_id == k.agency_id else
                'agency renamed')


def h_station(I):
    hlib.distances(I, {(30, 31): I.real('station', 0, 30, 64),
                       (10, 11): I.real('child', 0, 30, 64)}, 100.0)
    a, b = two(I)
    kids = []
    for s, t in ((a, 'a'), (b, 'b')):
        up = t == 'b'
        P = stop(s, I.choice('parent' + t, ['P', 'Q']) if up else 'P',
                 31.0 if up else 30.0, stop_name='Station', location_type=1)
        O = stop(s, I.choice('other' + t, ['O', 'W']) if up else 'O', 70.0,
                 location_type=1)
        for i in range(2):
            mine = I.choice('of%s%d' % (t, i), [None, P, O]) if (
                i == 0) else P
            kw = {} if mine is None else {'parent_station': mine.stop_id}
            x = stop(s, ['C', 'D'][i] if t == 'a' else ['C', 'E'][i],
                     [10.0, 50.0][i] + (1 if up else 0),
                     location_type=0, **kw)
            kids.append((x, t, mine))
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    for x, t, p in kids:
        y = image(fm, x, t)
        I.check(m.stops.get(y.stop_id) is y, 'stop is in the merged feed')
        if t == 'a' and [1 for z, u, _ in kids if u == 'b' and
                         image(fm, z, u) is y]:
            continue    # a merged stop is where the new feed has it
        if p is None:
            I.check(not y.parent_station, 'no parent')
        else:
            g = image(fm, p, t)
            I.check(y.parent_station == g.stop_id, 'its parent')
            I.check(m.GetStop(y.parent_station) is g, 'parent is there')
            I.cover('station renamed' if g.stop_id != p.stop_id else
                    'station shared')


ZONES = [None, 'z', 'z_merged_1', 'w']


def h_zone(I):
    hlib.distances(I, {(10, 11): 0.0}, 100.0)
    a, b = two(I)
    all_ = []
    for s, t in ((a, 'a'), (b, 'b')):
        for i in range(3):
            z = I.choice('zone%s%d' % (t, i), ZONES[:3])
            kw = {} if z is None else {'zone_id': z}
            x = stop(s, ['S', 'T', 'U'][i] if t == 'a' else
                     ['S', 'V', 'W'][i],
                     [10.0, 30.0, 50.0][i] + (1 if t == 'b' else 0),
                     **kw)
            all_.append((x, t, z))
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    for x, t, z in all_:
        y = image(fm, x, t)
        if z is None:
            I.check(not y.zone_id, 'no zone')
            I.cover('none')
            continue
        I.check(bool(y.zone_id), 'has a zone')
        I.cover('renamed' if y.zone_id != z else 'shared')
        for x2, t2, z2 in all_:
            if t2 == t and z2 is not None:
                I.check((image(fm, x2, t).zone_id == y.zone_id) == (z == z2),
                        'share a zone iff they did')


def h_fare(I):
    import transitfeed as tf
    hlib.distances(I, {(10, 11): 0.0, (30, 31): 50.0}, 100.0)
    a, b = two(I)
    want = set()
    rules = []
    for s, t in ((a, 'a'), (b, 'b')):
        up = t == 'b'
        rs = [route(s, 'R', '1'), route(s, 'Q', '3' if up else '2')]
        ss = [stop(s, 'S', 11.0 if up else 10.0, zone_id='z'),
              stop(s, 'T', 31.0 if up else 30.0, zone_id='w')]
        f = [tf.FareAttribute('F', '1.5', 'USD', 0, 0),
             tf.FareAttribute('G', '2.5', 'USD', 0, 0)]
        if up:
            f[0].price = I.real('price', 1, 2, 64)
        for k in f:
            s.AddFareAttributeObject(k)
        for i in range(1 + I.b['deep']):
            k = I.choice('fare%s%d' % (t, i), f)
            r = I.choice('route%s%d' % (t, i), [None] + rs)
            zs = [I.choice('z%s%d%d' % (t, i, j), [None] + ss)
                  if j < 2 else None for j in range(3)]
            if I.flag('contains%s%d' % (t, i)):
                zs = [None, None, zs[0]]
            x = tf.FareRule(k.fare_id, r and r.route_id,
                            *[z and z.zone_id for z in zs])
            s.AddFareRuleObject(x)
            rules.append((t, k, r, zs))
        s.AddFareRuleObject(tf.FareRule('G', 'R'))
        rules.append((t, f[1], rs[0], [None] * 3))
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    for t, k, r, zs in rules:
        want.add((image(fm, k, t).fare_id,
                  r and image(fm, r, t).route_id) + tuple(
                      [z and image(fm, z, t).zone_id for z in zs]))
        I.cover('fare shared' if image(fm, k, t).fare_id == k.fare_id else
                'fare renamed')
    got = []
    for k in m.GetFareAttributeList():
        for x in k.GetFareRuleList():
            I.check(x.fare_id == k.fare_id, 'of its fare')
            got.append((x.fare_id, x.route_id or None, x.origin_id or None,
                        x.destination_id or None, x.contains_id or None))
    I.check(len(got) == len(set(got)), 'no rule twice')
    I.check(set(got) == want, 'the rules')
    if len(want) < len(set(rules and [id(x) for x in rules])):
        I.cover('rule shared')


def h_block(I):
    a, b = two(I)
    trips = []
    for s, t in ((a, 'a'), (b, 'b')):
        route(s, 'R')
        service(s, '2010' if t == 'a' else '2011')
        for i in range(2):
            k = I.str('block%s%d' % (t, i), 0, 3, 'ab_') if i == 0 else \
                I.choice('block%s1' % t, ['', 'x', 'a_x', 'b_x'])
            x = trip(s, 'T%s%d' % (t, i), **({'block_id': k}))
            trips.append((x, t, k))
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    for x, t, k in trips:
        y = image(fm, x, t)
        if bool(k == ''):
            I.check(not y.block_id, 'no block')
            I.cover('none')
            continue
        I.check(bool(y.block_id), 'has a block')
        for x2, t2, k2 in trips:
            if bool(k2 == ''):
                continue
            same = I.And(t == t2, k == k2)
            I.check(I.Iff(y.block_id == image(fm, x2, t2).block_id, same),
                    'same block iff same feed and name')
            if t != t2 and bool(k == k2):
                I.cover('same name')


def h_written(I):
    """The merged feed written and read again holds the same references."""
    from StringIO import StringIO
    from transitfeed import stoptime, loader
    a, b = two(I)
    for s, t in ((a, 'a'), (b, 'b')):
        route(s, 'R', '1' if t == 'a' or I.flag('same') else '2')
        service(s, '2010' if t == 'a' else '2011')
        stops = [stop(s, k, 10.0 + i + (5 if t == 'b' and i and
                                        I.flag('moved') else 0))
                 for i, k in enumerate(['S', 'T'])]
        shape(s, 'H', 10.0)
        x = trip(s, I.choice('trip', ['T', 'U']) if t == 'b' else 'T',
                 block_id=I.choice('block' + t, ['', 'x']),
                 **({'shape_id': 'H'} if I.flag('shaped' + t) else {}))
        for i in range(2):
            x.AddStopTimeObject(stoptime.StopTime(
                None, stops[i], arrival_secs=36000 + 60 * i,
                departure_secs=36000 + 60 * i + 5, timepoint=i))
    hlib.distances(I, {}, 20.0)
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    f = StringIO()
    m.WriteGoogleTransitFeed(f)
    f.seek(0)
    r, acc = hlib.reporter()
    s = loader.Loader(feed_path=f, problems=r).Load()
    I.check(not [e for e in acc.problems if e.IsError()], 'loads')
    I.check(sorted(s.trips.keys()) == sorted(m.trips.keys()), 'trips')
    I.check(sorted(s.stops.keys()) == sorted(m.stops.keys()), 'stops')
    I.check(sorted(s.routes.keys()) == sorted(m.routes.keys()), 'routes')
    for k in s.trips.keys():
        x, y = s.GetTrip(k), m.GetTrip(k)
        for c in ('route_id', 'service_id', 'shape_id', 'block_id'):
            I.check((getattr(x, c) or '') == (getattr(y, c) or ''), c)
        I.check([(o.stop_id, o.arrival_secs, o.departure_secs, o.timepoint)
                 for o in x.GetStopTimes()] ==
                [(o.stop_id, o.arrival_secs, o.departure_secs, o.timepoint)
                 for o in y.GetStopTimes()], 'stop times')
    I.cover('read back')
