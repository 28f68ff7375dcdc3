"""C48: feed records compare equal exactly when all their fields agree."""
BOUNDS = {'quick': {'chars': 1, 'rules': 2},
          'thorough': {'chars': 2, 'rules': 3}}
COVERS = {'h_records': ['equal', 'different', 'blank or missing'],
          'h_fields': ['text', 'blank', 'unknown'],
          'h_periods': ['equal', 'calendar', 'exceptions'],
          'h_fares': ['equal', 'attribute', 'rules'],
          'h_shapes': ['equal', 'different'],
          'h_other': ['nothing']}
SECONDS = {'quick': 400, 'thorough': 3000}
ASSUMPTIONS = []

KINDS = ['Stop', 'Route', 'Agency', 'Trip', 'Transfer', 'FeedInfo']


def same(I, a, b, want):
    I.check((a == b) == want, 'equal iff all fields agree')
    I.check((b == a) == want, 'symmetric')
    I.check((a != b) == (not want), 'inequality is the negation')
    I.check(a == a and not a != a, 'reflexive')


def h_records(I):
    """Any two records of one kind over known and own columns."""
    import transitfeed
    kind = I.choice('kind', KINDS)
    cls = getattr(transitfeed, kind)
    known = {'Stop': 'stop_name', 'Route': 'route_desc',
             'Agency': 'agency_url', 'Trip': 'trip_headsign',
             'Transfer': 'min_transfer_time',
             'FeedInfo': 'feed_lang'}[kind]
    made, texts = [], []
    for x in 'ab':
        r = cls()
        t = {}
        for f in (known, 'own'):
            how = I.choice('%s of %s' % (f, x), ['missing', 'none', 'text',
                                                 'number'])
            if how == 'missing':
                t[f] = ''
                continue
            if how == 'none':
                setattr(r, f, None)
                t[f] = ''
                I.cover('blank or missing')
            elif how == 'number':
                n = I.int('%s %s number' % (f, x), 0, 12)
                setattr(r, f, n)
                t[f] = str(n)
            else:
                s = I.str('%s %s' % (f, x), 0, I.b['chars'], 'a1')
                setattr(r, f, s)
                t[f] = s
        made.append(r)
        texts.append(t)
    want = texts[0][known] == texts[1][known] and \
        texts[0]['own'] == texts[1]['own']
    made[0]._private, made[1]._private = 1, 2
    same(I, made[0], made[1], bool(want))
    I.cover('equal' if want else 'different')


def h_fields(I):
    """Reading by name gives the text, or blank."""
    import transitfeed
    s = transitfeed.Stop()
    I.check(s['stop_desc'] == '' and s.stop_desc is None, 'absent is blank')
    v = I.str('text', 0, 3, 'ab ')
    s.stop_desc = v
    I.check(s['stop_desc'] == v, 'text by name')
    I.cover('text' if len(v) else 'blank')
    n = I.int('number', -5, 500)
    s.my_number = n
    I.check(s['my_number'] == str(n), 'a number as text')
    s.my_number = None
    I.check(s['my_number'] == '', 'none as blank')
    I.check(s['nothing'] == '', 'unknown name as blank')
    try:
        s.nothing
        I.fail('unknown attribute')
    except AttributeError:
        I.cover('unknown')
    names = sorted([k for k, x in s.iteritems()])
    I.check([k for k in names if k in ('stop_desc', 'my_number')] ==
            ['my_number', 'stop_desc'], 'columns in use')
    I.check([k for k in names if k[:1] == '_'] == [], 'no private names')
    I.check(sorted(s.keys()) == names, 'keys are the columns')


def h_periods(I):
    """Service periods by their calendar and exception rows."""
    import transitfeed
    days = ['20240101', '20240102']
    made, rows = [], []
    for x in 'ab':
        p = transitfeed.ServicePeriod(I.choice('id ' + x, ['A', 'B'])
                                      if x == 'b' else 'A')
        cal = None
        if I.flag('calendar ' + x):
            start = I.choice('start ' + x, days)
            p.SetStartDate(start)
            p.SetEndDate('20240110')
            w = []
            for d in range(2):
                on = I.flag('day %d %s' % (d, x))
                p.SetDayOfWeekHasService(d, on)
                w.append(on)
            cal = (p.service_id, start, w)
        exc = []
        for d in days[::-1] if x == 'b' else days:
            k = I.int('exception %s %s' % (d, x), 0, 2)
            if k:
                p.SetDateHasService(d, k == 1)
                exc.append((p.service_id, d, I.concrete(k)))
        made.append(p)
        rows.append((cal, sorted(exc)))
    want = rows[0] == rows[1]
    same(I, made[0], made[1], want)
    I.cover('equal' if want else ('calendar' if rows[0][0] != rows[1][0] else
                                  'exceptions'))


def h_fares(I):
    """Fares by their attributes and their rules in any order."""
    import transitfeed
    made, vals = [], []
    for x in 'ab':
        price = I.int('price ' + x, 0, 9)
        pay = I.choice('payment ' + x, [0, 1])
        tr = I.choice('transfers ' + x, [0, None]) if x == 'a' else 0
        f = transitfeed.FareAttribute(field_dict={
            'fare_id': 'f', 'price': price, 'currency_type': 'USD',
            'payment_method': pay, 'transfers': tr})
        rules = []
        for i in range(I.int('rules ' + x, 0, I.b['rules'])):
            o = I.choice('origin %d %s' % (i, x), ['1', '2', None])
            f.rules.append(transitfeed.FareRule(fare_id='f', origin_id=o))
            rules.append(o or '')
        made.append(f)
        vals.append(((price, pay, tr), sorted(rules)))
    attrs = vals[0][0][0] == vals[1][0][0] and \
        vals[0][0][1:] == vals[1][0][1:]
    want = bool(attrs) and vals[0][1] == vals[1][1]
    same(I, made[0], made[1], want)
    I.cover('equal' if want else ('rules' if attrs else 'attribute'))


def h_shapes(I):
    """Shapes by their points in order."""
    import transitfeed
    made, pts = [], []
    for x in 'ab':
        s = transitfeed.Shape(x)
        L = []
        for i in range(I.int('points ' + x, 0, 2)):
            lat = I.int('lat %d %s' % (i, x), 10, 12)
            s.AddPoint(lat, 20 + i)
            L.append(lat)
        made.append(s)
        pts.append(L)
    want = len(pts[0]) == len(pts[1]) and bool(I.all(
        [p == q for p, q in zip(*pts)]))
    same(I, made[0], made[1], want)
    I.cover('equal' if want else 'different')


def h_other(I):
    """No record equals nothing."""
    import transitfeed
    kind = I.choice('kind', KINDS + ['ServicePeriod', 'FareAttribute',
                                     'FareRule', 'Shape'])
    cls = getattr(transitfeed, kind)
    r = cls('s') if kind == 'Shape' else cls()
    I.check(not r == None and r != None, 'not equal to nothing')
    I.check(r == r and not r != r, 'reflexive')
    I.cover('nothing')
