"""C33: merging loses, duplicates and confuses no record."""
import hlib
BOUNDS = {'quick': {'text': 1, 'extra': 1}, 'thorough': {'text': 2,
                                                         'extra': 2}}
STATES = ['merged', 'same id kept apart', 'different ids']
COVERS = {'h_agency': STATES, 'h_stop': STATES + ['far', 'near'],
          'h_route': STATES + ['optional'], 'h_fare': STATES,
          'h_shape': STATES + ['far', 'near'],
          'h_service': STATES[1:], 'h_trip': STATES[1:],
          'h_transfer': ['both', 'old only', 'new only', 'same pair']}
SECONDS = {'quick': 500}


def merger(I, a, b):
    """Everything merged with the tool's own list of mergers."""
    import merge
    import transitfeed
    acc = hlib.Collector()
    m = transitfeed.Schedule(problem_reporter=merge.MergeProblemReporter(acc),
                             memory_db=True)
    fm = merge.FeedMerger(a, b, m, merge.MergeProblemReporter(acc))
    fm.AddDefaultMergers()
    return fm, m, acc


def agency(s, ident='AG', name='Ag', url='http://a.example', tz='UTC', **kw):
    import transitfeed as tf
    d = {'agency_id': ident, 'agency_name': name, 'agency_url': url,
         'agency_timezone': tz}
    d.update(kw)
    x = tf.Agency(field_dict=d)
    s.AddAgencyObject(x)
    return x


def two(I):
    out = []
    for k in 'ab':
        s, r, acc = hlib.schedule()
        agency(s)
        out.append(s)
    return out


LISTS = {'agency': 'GetAgencyList', 'stop': 'GetStopList',
         'route': 'GetRouteList', 'service': 'GetServicePeriodList',
         'fare': 'GetFareAttributeList', 'shape': 'GetShapeList',
         'trip': 'GetTripList'}
IDS = {'agency': 'agency_id', 'stop': 'stop_id', 'route': 'route_id',
       'service': 'service_id', 'fare': 'fare_id', 'shape': 'shape_id',
       'trip': 'trip_id'}


def judge(I, kind, fm, m, acc, olds, news, rule, stats=True, told=True):
    """olds/news are the records of one kind in each feed; rule(a, b) tells
    whether two of the same id may share one merged record."""
    f = IDS[kind]
    all_m = list(getattr(m, LISTS[kind])())
    ids = [getattr(x, f) for x in all_m]
    I.check(len(set(ids)) == len(ids), 'distinct ids')
    images = {}
    for side, recs, mp in (('a', olds, fm.a_merge_map),
                           ('b', news, fm.b_merge_map)):
        for x in recs:
            hit = [y for k, y in mp.items() if k is x]
            I.check(len(hit) == 1, 'has one image')
            if not hit:
                continue
            where = [i for i, y in enumerate(all_m) if y is hit[0]]
            I.check(len(where) == 1, 'image is in the merged feed')
            if where:
                images.setdefault(where[0], []).append((side, x))
    I.check(len(images) == len(all_m), 'nothing added')
    merged = 0
    unmerged = []
    for a in olds:
        same = [b for b in news if getattr(b, f) == getattr(a, f)]
        want = bool(same) and bool(rule(a, same[0]))
        if same and not want:
            unmerged.append(getattr(a, f))
        shared = [v for v in images.values()
                  if len(v) > 1 and any(y is a for _, y in v)]
        I.check(len(shared) == (1 if want else 0), 'merged iff the rule')
        if want:
            merged += 1
            if shared:
                I.check(len(shared[0]) == 2 and
                        any(y is same[0] for _, y in shared[0]),
                        'merged with its namesake')
        I.cover('merged' if want else 'same id kept apart' if same else
                'different ids')
    I.check(len(all_m) == len(olds) + len(news) - merged, 'number')
    for i, y in enumerate(all_m):
        for side, x in images.get(i, []):
            other = news if side == 'a' else olds
            if len(images[i]) == 2 or not [
                    z for z in other if getattr(z, f) == getattr(x, f)]:
                I.check(ids[i] == getattr(x, f), 'keeps its id')
            else:
                I.check(ids[i] != getattr(x, f), 'renamed')
    if stats:
        got = [g.GetMergeStats() for g in fm.GetMergerList()
               if g.ENTITY_TYPE_NAME == {'fare': 'fare attribute',
                                         'service': 'service period'}.get(
                                             kind, kind)]
        I.check(list(got[0]) == [merged, len(olds) - merged,
                                 len(news) - merged], 'statistics')
    said = [e.id for e in acc.of('SameIdButNotMerged')
            if e.entity_type_name == {'fare': 'fare attribute'}.get(
                kind, kind)]
    if told:
        I.check(sorted(said) == sorted(unmerged), 'said so')
    return images, all_m


def image(fm, x, side):
    mp = fm.a_merge_map if side == 'a' else fm.b_merge_map
    return [y for k, y in mp.items() if k is x][0]


def h_agency(I):
    a, b = two(I)
    n = I.b['text']
    olds, news = list(a.GetAgencyList()), list(b.GetAgencyList())
    for s, t, out in ((a, 'a', olds), (b, 'b', news)):
        ident = 'X' if t == 'a' else I.choice('id', ['X', 'Y'])
        which = 'agency_name' if t == 'a' else I.choice(
            'which', ['agency_name', 'agency_url', 'agency_timezone'])
        if t == 'a':
            x = agency(s, ident, name='pq', url='pq', tz='pq')
        else:
            kw = dict(agency_name='pq', agency_url='pq', agency_timezone='pq')
            kw[which] = I.str('value', 1, n + 1, 'pqQ ')
            x = agency(s, ident, **kw)
        x.agency_lang = 'en' if t == 'a' else I.choice('lang', ['en', 'fr'])
        out.append(x)
    if I.flag('more'):
        olds.append(agency(a, 'Z', name='only old'))
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')

    def rule(p, q):
        return I.And(*[getattr(p, k) == getattr(q, k) for k in
                       ('agency_name', 'agency_url', 'agency_timezone')])
    judge(I, 'agency', fm, m, acc, olds, news, rule)
    y = image(fm, news[1], 'b')
    for k in ('agency_name', 'agency_url', 'agency_timezone', 'agency_lang'):
        I.check(getattr(y, k) == getattr(news[1], k), 'fields of the new')
    y = image(fm, olds[1], 'a')
    for k in ('agency_name', 'agency_url', 'agency_timezone'):
        I.check(getattr(y, k) == getattr(olds[1], k), 'fields of the old')


def h_stop(I):
    import merge
    import transitfeed as tf
    a, b = two(I)
    d = I.real('distance', 0, 50, 4)
    hlib.distances(I, {(10, 11): d}, 1000.0)
    limit = I.choice('limit', [None, 0.0, 25.5])
    olds, news = [], []
    for s, t, out in ((a, 'a', olds), (b, 'b', news)):
        kw = {'stop_lat': 10.0 if t == 'a' else 11.0, 'stop_lon': 20.0,
              'stop_id': 'X', 'stop_name': 'Aa', 'zone_id': 'z',
              'location_type': 0}
        if t == 'b':
            kw['stop_id'] = I.choice('id', ['X', 'Y'])
            w = I.choice('which', ['name', 'zone', 'type'])
            if w == 'name':
                kw['stop_name'] = I.str('name', 2, 2, 'aAb')
            elif w == 'zone':
                kw['zone_id'] = I.choice('zone', ['z', 'w', ''])
            else:
                kw['location_type'] = I.choice('type', [0, 1])
            kw['stop_desc'] = 'new'
        x = tf.Stop(field_dict=kw)
        s.AddStopObject(x)
        out.append(x)
    x = tf.Stop(field_dict={'stop_lat': 30.0, 'stop_lon': 20.0,
                            'stop_id': 'Q', 'stop_name': 'Q',
                            'zone_id': 'q'})
    (a if I.flag('extra') else b).AddStopObject(x)
    (olds if a.stops.get('Q') is x else news).append(x)
    fm, m, acc = merger(I, a, b)
    if limit is not None:
        fm.GetMerger(merge.StopMerger).SetLargestStopDistance(limit)
    else:
        limit = 10.0
    I.check(fm.MergeSchedules() == True, 'merges')

    def rule(p, q):
        return I.And(p.stop_name.lower() == q.stop_name.lower(),
                     p.zone_id == q.zone_id,
                     p.location_type == q.location_type, d <= limit)
    judge(I, 'stop', fm, m, acc, olds, news, rule)
    I.cover('far' if bool(d > limit) else 'near')
    y = image(fm, news[0], 'b')
    for k in ('stop_lat', 'stop_name', 'stop_desc', 'location_type'):
        I.check(getattr(y, k) == getattr(news[0], k), 'fields of the new')
    y = image(fm, x, 'a' if a.stops.get('Q') is x else 'b')
    I.check(y.stop_name == 'Q' and y.stop_lat == 30.0, 'fields of the other')


def h_route(I):
    import transitfeed as tf
    a, b = two(I)
    olds, news = [], []
    w = I.choice('which', ['short', 'long', 'type', 'url', 'colours',
                           'agency'])
    for s, t, out in ((a, 'a', olds), (b, 'b', news)):
        kw = {'route_id': 'X', 'route_short_name': '1',
              'route_long_name': 'Long', 'route_type': 3, 'agency_id': 'AG'}
        if t == 'b':
            kw['route_id'] = I.choice('id', ['X', 'Y'])
        if w == 'short' and t == 'b':
            kw['route_short_name'] = I.str('short', 1, 2, '12')
        elif w == 'long' and t == 'b':
            kw['route_long_name'] = I.str('long', 4, 4, 'Long')
        elif w == 'type' and t == 'b':
            kw['route_type'] = I.int('type', 0, 7)
        elif w == 'url':
            kw['route_url'] = I.str('url' + t, 0, I.b['text'], 'pq')
        elif w == 'colours':
            k = I.choice('colour', ['route_color', 'route_text_color']) \
                if t == 'a' else k
            kw[k] = I.choice('col' + t, ['', '000000', 'ffffff'])
        elif w == 'agency':
            if t == 'a':
                if I.flag('blank'):
                    kw['agency_id'] = ''
            else:
                kw['agency_id'] = I.choice('ag', ['', 'AG', 'AG2'])
                if kw['agency_id'] == 'AG2':
                    agency(b, 'AG2', name='Second')
        x = tf.Route(field_dict=kw)
        s.AddRouteObject(x)
        out.append(x)
    if I.flag('more'):
        for s, out in ((a, olds), (b, news)):
            x = tf.Route(field_dict={
                'route_id': 'M', 'route_short_name': '7', 'route_type': 3,
                'route_long_name': 'Same', 'agency_id': 'AG'})
            s.AddRouteObject(x)
            out.append(x)
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')

    def opt(p, q, k):
        u, v = getattr(p, k, None) or '', getattr(q, k, None) or ''
        return I.Or(u == '', v == '', u == v)

    def rule(p, q):
        return I.And(
            p.route_short_name == q.route_short_name,
            p.route_long_name == q.route_long_name,
            p.route_type == q.route_type,
            (p.agency_id or 'AG') == (q.agency_id or 'AG'),
            opt(p, q, 'route_url'), opt(p, q, 'route_color'),
            opt(p, q, 'route_text_color'))
    judge(I, 'route', fm, m, acc, olds, news, rule)
    x, y = image(fm, olds[0], 'a'), image(fm, news[0], 'b')
    for k in ('route_short_name', 'route_long_name', 'route_type'):
        I.check(y[k] == news[0][k], 'fields of the new')
        # (a merged record of differing texts does not exist)
        I.check(x[k] == olds[0][k], 'fields of the old')
    for k in ('route_url', 'route_color', 'route_text_color'):
        u = getattr(olds[0], k, None) or ''
        v = getattr(news[0], k, None) or ''
        if x is y:
            I.check((getattr(x, k, None) or '') == (
                v if bool(u == '') else u), 'the one given')
            if bool(u == '') != bool(v == ''):
                I.cover('optional')
        else:
            I.check((getattr(x, k, None) or '') == u, 'of the old')
            I.check((getattr(y, k, None) or '') == v, 'of the new')


def h_fare(I):
    import transitfeed as tf
    a, b = two(I)
    olds, news = [], []
    w = I.choice('which', ['price', 'currency', 'payment', 'transfers',
                           'duration'])
    for s, t, out in ((a, 'a', olds), (b, 'b', news)):
        kw = {'fare_id': 'X', 'price': 1.5, 'currency_type': 'USD',
              'payment_method': 0, 'transfers': 1, 'transfer_duration': 60}
        if t == 'b':
            kw['fare_id'] = I.choice('id', ['X', 'Y'])
            if w == 'price':
                kw['price'] = I.real('price', 0, 5, 64)
            elif w == 'currency':
                kw['currency_type'] = I.choice('cur', ['USD', 'EUR'])
            elif w == 'payment':
                kw['payment_method'] = I.int('pay', 0, 1)
            elif w == 'transfers':
                kw['transfers'] = I.choice('tr', [None, 0, 1, 2])
            else:
                kw['transfer_duration'] = I.choice('none', [0, 1]) and \
                    I.int('dur', 0, 100) or None
        x = tf.FareAttribute(field_dict=kw)
        s.AddFareAttributeObject(x)
        out.append(x)
    if I.flag('more'):
        x = tf.FareAttribute('Z', '2.0', 'USD', 0, 0)
        a.AddFareAttributeObject(x)
        olds.append(x)
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    keys = ('price', 'currency_type', 'payment_method', 'transfers',
            'transfer_duration')

    def rule(p, q):
        return I.And(*[getattr(p, k) == getattr(q, k) for k in keys])
    judge(I, 'fare', fm, m, acc, olds, news, rule)
    for x, s in ((olds[0], 'a'), (news[0], 'b')):
        for k in keys:
            I.check(getattr(image(fm, x, s), k) == getattr(x, k), 'fields')


def h_shape(I):
    import merge
    import transitfeed as tf
    a, b = two(I)
    ds, de = I.real('start', 0, 30, 4), I.real('end', 0, 30, 4)
    hlib.distances(I, {(10, 11): ds, (12, 13): de}, 1000.0)
    limit = I.choice('limit', [None, 25.5])
    olds, news = [], []
    for s, t, out in ((a, 'a', olds), (b, 'b', news)):
        x = tf.Shape('X' if t == 'a' else I.choice('id', ['X', 'Y']))
        pts = [10.0, 12.0] if t == 'a' else [11.0, 13.0]
        if I.flag('middle' + t):
            pts[1:1] = [40.0 if t == 'a' else 50.0]
        for i, p in enumerate(pts):
            x.AddPoint(p, 20.0, i * 2.5000251)
        s.AddShapeObject(x)
        out.append(x)
    if I.flag('more'):
        x = tf.Shape('Z')
        x.AddPoint(60.0, 20.0, 0)
        b.AddShapeObject(x)
        news.append(x)
    fm, m, acc = merger(I, a, b)
    if limit is not None:
        fm.GetMerger(merge.ShapeMerger).SetLargestShapeDistance(limit)
    else:
        limit = 10.0
    I.check(fm.MergeSchedules() == True, 'merges')

    def rule(p, q):
        return I.And(ds <= limit, de <= limit)
    judge(I, 'shape', fm, m, acc, olds, news, rule)
    I.cover('near' if bool(I.And(ds <= limit, de <= limit)) else 'far')
    for x, s in ((olds[0], 'a'), (news[0], 'b')):
        y = image(fm, x, s)
        if not (s == 'a' and len([1 for v in news if v.shape_id == 'X' and
                                  image(fm, v, 'b') is y])):
            I.check(list(y.points) == list(x.points), 'points')


def h_service(I):
    import transitfeed as tf
    a, b = two(I)
    olds, news = [], []
    for s, t, out in ((a, 'a', olds), (b, 'b', news)):
        for i in range(2):
            p = tf.ServicePeriod(I.choice('id%s%d' % (t, i),
                                          ['X', 'Y'] if i == 0 else
                                          ['Z', 'Q']))
            days = [1, I.flag('d%s%d' % (t, i))]
            p.SetDayOfWeekHasService(0, days[0])
            p.SetDayOfWeekHasService(6, days[1])
            y = '2010' if t == 'a' else '2011'
            p.SetStartDate(y + '0101')
            p.SetEndDate(y + '0630')
            if i == 0 and I.flag('except' + t):
                p.SetDateHasService(y + '0701', True)
                p.SetDateHasService(y + '0104', False)
            s.AddServicePeriodObject(p)
            out.append(p)
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    judge(I, 'service', fm, m, acc, olds, news, lambda p, q: False,
          stats=False, told=False)
    for recs, s in ((olds, 'a'), (news, 'b')):
        for x in recs:
            y = image(fm, x, s)
            I.check(y.ActiveDates() == x.ActiveDates(), 'same days')
            I.check(y.GetDateRange() == x.GetDateRange(), 'same range')
    I.check(not acc.of('SameIdButNotMerged'), 'services never merge')


def h_trip(I):
    import transitfeed as tf
    a, b = two(I)
    olds, news = [], []
    for s, t, out in ((a, 'a', olds), (b, 'b', news)):
        r = tf.Route('1', 'Long', 3, 'R', 'AG')
        s.AddRouteObject(r)
        p = tf.ServicePeriod('SV')
        p.SetDateHasService('20100101' if t == 'a' else '20110101')
        s.AddServicePeriodObject(p)
        for i in range(2):
            x = tf.Trip(field_dict={
                'trip_id': I.choice('id%s%d' % (t, i), ['X', 'Y'] if i == 0
                                    else ['Z', 'Q']),
                'route_id': 'R', 'service_id': 'SV',
                'trip_headsign': I.str('head%s%d' % (t, i), 0, I.b['text'],
                                       'pq'),
                'direction_id': str(i)})
            s.AddTripObject(x)
            out.append(x)
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    judge(I, 'trip', fm, m, acc, olds, news, lambda p, q: False,
          stats=False, told=False)
    for recs, s in ((olds, 'a'), (news, 'b')):
        for x in recs:
            y = image(fm, x, s)
            I.check(y.trip_headsign == x.trip_headsign, 'headsign')
            I.check(y.direction_id == x.direction_id, 'direction')


def h_transfer(I):
    import transitfeed as tf
    hlib.distances(I, {}, 500.0)
    a, b = two(I)
    want = {}
    stops = {}
    for s, t in ((a, 'a'), (b, 'b')):
        for i, k in enumerate(['P', 'Q', 'V']):
            x = tf.Stop(10.0 + i + (20 if t == 'b' and k == 'Q' else 0),
                        20.0, k, k)
            s.AddStopObject(x)
            stops[t, k] = x
    for s, t in ((a, 'a'), (b, 'b')):
        n = I.choice('n' + t, [0, 1, 2])
        pairs = [('P', 'V'), ('V', 'Q'), ('Q', 'P'), ('V', 'P')]
        for i in range(n):
            f, g = I.choice('pair%s%d' % (t, i), pairs[:2] if i == 0 else
                            pairs[2:])
            k = I.int('time%s%d' % (t, i), 0, 500)
            x = tf.Transfer(field_dict={
                'from_stop_id': f, 'to_stop_id': g, 'transfer_type': 2,
                'min_transfer_time': k})
            s.AddTransferObject(x)
            want[t, f, g] = k
    fm, m, acc = merger(I, a, b)
    I.check(fm.MergeSchedules() == True, 'merges')
    expect = {}
    for t in 'ab':   # of the same pair of merged stops the new one is kept
        for u, f, g in want:
            if u == t:
                k = (image(fm, stops[t, f], t).stop_id,
                     image(fm, stops[t, g], t).stop_id)
                if k in expect:
                    I.cover('same pair')
                expect[k] = want[u, f, g]
    got = list(m.GetTransferIter())
    I.check(len(got) == len(expect), 'number of transfers')
    for x in got:
        k = x.from_stop_id, x.to_stop_id
        I.check(k in expect, 'between the merged stops')
        if k in expect:
            I.check(x.min_transfer_time == expect[k], 'its time')
    has = [t for t in 'ab' if [1 for u in want if u[0] == t]]
    if has:
        I.cover('both' if len(has) == 2 else 'old only' if has == ['a'] else
                'new only')
