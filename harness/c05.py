"""C05: trips and departures per day."""
import datetime
import hlib
BOUNDS = {'quick': {'services': 2, 'trips': 2, 'days': 2, 'runs': 3,
                    'patterns': [[True, True], [False, True]]},
          'thorough': {'services': 2, 'trips': 3, 'days': 3, 'runs': 4,
                       'patterns': [[True, True, True], [False, True, False],
                                    [True, False, False],
                                    [False, False, False]]}}
COVERS = {'h_services': ['listed'], 'h_short': ['one stop', 'more'],
          'h_totals': ['frequency', 'plain']}


def feed(I, s, services):
    import transitfeed
    s.AddAgency('A', 'http://a.example', 'America/Los_Angeles', 'AG')
    route = s.AddRoute('1', 'One', 3, 'R')
    stops = [s.AddStop(40.0 + 0.01 * i, -100.0, 'stop %d' % i, 'ST%d' % i)
             for i in range(3)]
    return route, stops


def make_services(I, s, base, n, days):
    """Services with symbolic activity on each day of the window."""
    from transitfeed import serviceperiod
    act = []
    for i in range(n):
        sp = serviceperiod.ServicePeriod('S%d' % i)
        for w in range(7):
            sp.SetDayOfWeekHasService(w, I.bool('w%d_%d' % (i, w)))
        a = I.choice('from%d' % i, [0, 1])
        sp.SetStartDate((base + datetime.timedelta(days=a)).strftime(
            '%Y%m%d'))
        sp.SetEndDate((base + datetime.timedelta(days=days)).strftime(
            '%Y%m%d'))
        x = I.choice('exc%d' % i, ['none', 'add', 'remove'])
        if x != 'none':
            sp.SetDateHasService(base.strftime('%Y%m%d'), x == 'add')
        s.AddServicePeriodObject(sp)
        row = []
        for k in range(days):
            wd = (base + datetime.timedelta(days=k)).weekday()
            on = I.any([I.And(wd == j, sp.day_of_week[j]) for j in range(7)])
            if k == 0 and x != 'none':
                on = x == 'add'
            elif k < a:
                on = False
            row.append(on)
        act.append((sp, row))
    return act


def h_services(I):
    s, r, acc = hlib.schedule()
    base = I.date('base', (1990, 1, 1), (2050, 1, 1))
    days = I.b['days']
    act = make_services(I, s, base, I.b['services'], days)
    got = s.GetServicePeriodsActiveEachDate(
        base, base + datetime.timedelta(days=days))
    I.check(len(got) == days, 'one entry per day')
    for k in range(days):
        d, periods = got[k]
        I.check(d == base + datetime.timedelta(days=k), 'day in order')
        for sp, row in act:
            n = len([p for p in periods if p is sp])
            I.check(n <= 1, 'service once')
            I.check(I.Iff(row[k], n == 1), 'active service listed')
        ids = [sp.service_id for sp, _ in act]
        I.check(len([p for p in periods if p.service_id not in ids])
                == 0, 'other service')
        I.log('n', len(periods))
    I.cover('listed')


def h_short(I):
    """Trips of one to three stops, with and without frequencies."""
    s, r, acc = hlib.schedule()
    base = datetime.date(2010, 1, 1)
    route, stops = feed(I, s, 1)
    from transitfeed import serviceperiod
    sp = serviceperiod.ServicePeriod('S0')
    for k in (0, 2):
        sp.SetDateHasService('2010010%d' % (k + 1), True)
    s.AddServicePeriodObject(sp)
    trips = departures = 0
    for t in range(2):
        trip = route.AddTrip(s, 'head', sp, 'T%d' % t)
        k = I.choice('stoptimes%d' % t, [1, 2, 3])
        for j in range(k):
            trip.AddStopTime(stops[j], stop_time='08:0%d:00' % j,
                             problems=r)
        runs = 0
        for f in range(I.choice('freqs%d' % t, [0, 1, 2])):
            h = I.int('headway%d_%d' % (t, f), 1200, 1800) if t + f == 0 \
                else 600
            trip.AddFrequency(3600 * f, 3600 * f + 3600, h, 0, r)
            runs += 6 if t + f else I.ite(h < 1800, 3, 2)
        if not trip.GetFrequencyTuples():
            runs = 1
        trips += runs
        departures += runs * (k - 1)
        I.cover('one stop' if k == 1 else 'more')
    got = s.GenerateDateTripsDeparturesList(base, datetime.date(2010, 1, 4))
    I.log('totals', [list(x[1:]) for x in got])
    I.check(len(got) == 3, 'days')
    for k in range(3):
        I.check(got[k][1] == (trips if k != 1 else 0), 'trips')
        I.check(got[k][2] == (departures if k != 1 else 0), 'departures')


def h_totals(I):
    import transitfeed
    s, r, acc = hlib.schedule()
    base = I.date('base', (1990, 1, 1), (2050, 1, 1))
    days = I.b['days']
    n = I.choice('services', range(1, I.b['services'] + 1))
    route, stops = feed(I, s, n)
    from transitfeed import serviceperiod
    act = []
    for i in range(n):
        # activity given by exceptions alone: every pattern of days
        sp = serviceperiod.ServicePeriod('S%d' % i)
        row = I.choice('on%d' % i, I.b['patterns'])
        for k in range(days):
            on = row[k]
            sp.SetDateHasService((base + datetime.timedelta(days=k)).strftime(
                '%Y%m%d'), on)
        s.AddServicePeriodObject(sp)
        act.append((sp, row))
    m = I.choice('trips', range(I.b['trips'] + 1))
    totals = {}
    for t in range(m):
        sp = I.choice('service%d' % t, range(n))
        trip = route.AddTrip(s, 'head', act[sp][0], 'T%d' % t)
        k = I.choice('stoptimes%d' % t, [2, 3] if t == 0 else [2])
        for j in range(k):
            trip.AddStopTime(stops[j], stop_time='08:0%d:00' % j,
                             problems=r)
        nf = I.choice('freqs%d' % t, range(0, 3 if t == 0 else 2))
        runs = 0
        for f in range(nf):
            a = I.int('start%d_%d' % (t, f), 0, 90000)
            h = I.int('headway%d_%d' % (t, f), 1, 7200)
            c = I.choice('runs%d_%d' % (t, f), range(
                1, I.b['runs'] + 1) if t + f == 0 else [2])
            e = I.int('end%d_%d' % (t, f), 1, 200000)
            # exactly c runs fit
            I.assume(I.And(e > a + (c - 1) * h, e <= a + c * h))
            trip.AddFrequency(a, e, h, 0, r)
            runs += c
        if not nf:
            runs = 1
            I.cover('plain')
        else:
            I.cover('frequency')
        x = totals.setdefault(sp, [0, 0])
        x[0] += runs
        x[1] += runs * (k - 1)
    got = s.GenerateDateTripsDeparturesList(
        base, base + datetime.timedelta(days=days))
    I.log('totals', [list(x[1:]) for x in got])
    I.check(len(got) == days, 'one entry per day')
    for k in range(days):
        I.check(got[k][0] == base + datetime.timedelta(days=k), 'day order')
        I.check(got[k][1] == sum([totals.get(i, (0, 0))[0]
                                  for i in range(n) if act[i][1][k]]),
                'trips of the day')
        I.check(got[k][2] == sum([totals.get(i, (0, 0))[1]
                                  for i in range(n) if act[i][1][k]]),
                'departures of the day')
