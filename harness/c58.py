"""C58: the report states the feed's true totals and upcoming service."""
import hlib
BOUNDS = {'quick': {'days': 4, 'trips': 3, 'each': 2,
                    'starts': [-70, -2, 0, 3, 59, 60, 61],
                    'lengths': [0, 1, 2, 5, 59, 60, 62, 75]},
          'thorough': {'days': 5, 'trips': 4, 'each': 3,
                       'starts': [-70, -61, -60, -59, -2, -1, 0, 1, 3, 58, 59,
                                  60, 61],
                       'lengths': [0, 1, 2, 3, 5, 30, 58, 59, 60, 61, 62, 75]}}
COVERS = {'h_window': ['some', 'over', 'not yet', 'cut at sixty days',
                       'no dates'],
          'h_numbers': ['even', 'uneven', 'many dates'],
          'h_page': ['agency', 'no agency', 'dates', 'no dates', 'upcoming'],
          'h_cell': ['line', 'no line', 'marked']}
SECONDS = {'quick': 400}


def day(I, base, n):
    import datetime
    return base + datetime.timedelta(days=n)


def base(I):
    import datetime
    return datetime.date(2010, 6, 9)


def label(d):
    names = 'Mon Tue Wed Thu Fri Sat Sun'.split()
    months = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()
    return '%s %s %02d' % (names[d.weekday()], months[d.month - 1], d.day)


def h_window(I):
    """Which days the summary covers and how many trips run on each."""
    fv = I.load('feedvalidator')
    now = base(I)
    I.set_today(now)
    s, r, acc, route, sp, stops = hlib.basic(2)
    dated = I.flag('dated')
    a = I.choice('start', I.b['starts'])
    n = I.choice('length', I.b['lengths']) if dated else 0
    first, last = day(I, now, a), day(I, now, a + n)
    sp.SetWeekdayService(True)
    sp.SetWeekendService(False)
    if dated:
        sp.SetStartDate(first.strftime('%Y%m%d'))
        sp.SetEndDate(last.strftime('%Y%m%d'))
    else:
        sp.SetStartDate(None)
        sp.SetEndDate(None)
    k = I.choice('weekday trips', range(1, I.b['each'] + 1))
    for i in range(k):
        t = route.AddTrip(s, 'x', sp, 'T%d' % i)
        hlib.put(s, t, stops[0], 1, arrival_secs=100, departure_secs=100)
        hlib.put(s, t, stops[1], 2, arrival_secs=200, departure_secs=200)
    got = fv.CalendarSummary(s)
    # the window runs up to, and not including, its last day
    lo, hi = max(a, 0), min(a + n, 60)
    want = []
    for x in range(lo, hi):
        d = day(I, now, x)
        want.append((d, k if d.weekday() < 5 else 0))
    if not dated:
        I.check(got == {}, 'no dates, no summary')
        I.cover('no dates')
        return
    if not want:
        I.check(got == {}, 'nothing upcoming')
        I.cover('over' if a + n <= 0 else 'not yet')
        return
    I.cover('some')
    if a + n > 60:
        I.cover('cut at sixty days')
    rows = got['date_trips_departures']
    I.check([(x[0], x[1]) for x in rows] == want, 'each day in order')
    I.check([x[2] for x in rows] == [c for _, c in want], 'departures')
    I.check(got['date_summary_range'] == label(want[0][0]) + ' to ' +
            label(want[-1][0]), 'range named')
    I.check(got['max_trips'] == max([c for _, c in want]) and
            got['min_trips'] == min([c for _, c in want]) and
            got['mean_trips'] == sum([c for _, c in want]) // len(want),
            'numbers')


class Days(object):
    """A schedule that runs given numbers of trips from a given day on."""

    def __init__(self, first, last, rows):
        self.range = first, last
        self.rows = rows

    def GetDateRange(self):
        return self.range

    def GenerateDateTripsDeparturesList(self, a, b):
        return self.rows


def h_numbers(I):
    """Average, most and least trips, and the dates having them."""
    fv = I.load('feedvalidator')
    now = base(I)
    I.set_today(now)
    n = I.choice('days', range(1, I.b['days'] + 1))
    counts = [I.int('trips%d' % i, 0, I.b['trips']) for i in range(n)]
    rows = [(day(I, now, i), c, 7) for i, c in enumerate(counts)]
    got = fv.CalendarSummary(Days('20100609', '20100809', rows))
    hi, lo = counts[0], counts[0]
    for c in counts[1:]:
        if c > hi:
            hi = c
        if c < lo:
            lo = c
    I.check(got['max_trips'] == hi, 'most')
    I.check(got['min_trips'] == lo, 'least')
    m = got['mean_trips']
    total = sum(counts)
    I.check(I.And(m * n <= total, total < (m + 1) * n), 'average')
    for key, v in (('max_trips_dates', hi), ('min_trips_dates', lo)):
        ds = [label(rows[i][0]) for i in range(n) if counts[i] == v]
        word = '1 service date' if len(ds) == 1 else \
            '%d service dates' % len(ds)
        I.check(got[key] == word + ' (' + ', '.join(
            ds[:3] + (['...'] if len(ds) > 3 else [])) + ')', 'dates')
        if len(ds) > 3:
            I.cover('many dates')
    I.cover('even' if hi == lo else 'uneven')


def h_page(I):
    """Totals on the page written."""
    fv = I.load('feedvalidator')
    from StringIO import StringIO
    import transitfeed
    I.set_today(base(I))
    s, r, acc = hlib.schedule()
    n = dict((k, I.choice(k, [0, 1, 2])) for k in ('agencies', 'stops'))
    for i in range(n['agencies']):
        s.AddAgency('Name%d' % i, 'http://a%d.example' % i,
                    'America/Los_Angeles', 'AG%d' % i)
    stops = [s.AddStop(10.0 + i, 20.0 + i, 'stop%d' % i, 'ST%d' % i)
             for i in range(n['stops'])]
    dated = I.flag('dated')
    later = I.flag('later')
    sp = s.NewDefaultServicePeriod()
    sp.SetWeekdayService(True)
    if dated:
        sp.SetStartDate('20100101' if not later else '20110115')
        sp.SetEndDate('20110302')
    elif I.flag('end only'):
        s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict={
            'feed_publisher_name': 'P', 'feed_end_date': '20110302'}))
    shapes = n['stops'] // 2 * 3
    for i in range(shapes):
        x = transitfeed.Shape('SH%d' % i)
        x.AddPoint(10.0, 20.0, 0)
        s.AddShapeObject(x)
    trips = routes = 0
    if n['agencies']:
        routes = I.choice('routes', [0, 3])
        for i in range(routes):
            route = transitfeed.Route(
                short_name=str(i), long_name='Route %d' % i,
                route_type='Bus', route_id='R%d' % i, agency_id='AG0')
            s.AddRouteObject(route)
            if i == 0:
                trips = 2
                for j in range(2):
                    route.AddTrip(s, 'x', sp, 'T%d' % j)
    acc2 = fv.HTMLCountingProblemAccumulator(5)
    f = StringIO()
    from transitfeed import problems
    found = I.choice('found', [0, 1, 2])
    err = I.flag('error') if found else 0
    r2 = problems.ProblemReporter(acc2)
    for i in range(found):
        r2.OtherProblem('what%d' % i, type=problems.TYPE_ERROR if err and i == 0
                        else problems.TYPE_WARNING)
    acc2.WriteOutput('some/dir/feed.zip', f, s, 'ext.name')
    text = f.getvalue()
    cell = '<th class="header">%s:</th><td class="header">%s</td>'
    names = ', '.join(['<a href="http://a%d.example">Name%d</a>' % (i, i)
                       for i in range(n['agencies'])]) or '?'
    I.check(cell % ('Agencies', names) in text, 'agencies')
    for k, v in (('Routes', routes), ('Stops', len(stops)),
                 ('Trips', trips), ('Shapes', shapes)):
        I.check(cell % (k, v) in text, k)
    said = ['feed validated successfully', 'Found this problem:',
            'Found these problems:']
    I.check([x in text for x in said] == [k == found for k in range(3)],
            'the verdict')
    I.check(('1 error' in text, '1 warning' in text, '2 warnings' in text) ==
            (bool(err), found - err == 1, found - err == 2), 'how many')
    dates = 'No valid service dates found'
    if dated:
        dates = '%s to March 02, 2011' % (
            'January 15, 2011' if later else 'January 01, 2010')
    I.check(cell % ('Effective', dates) in text, 'dates')
    up = 'During the upcoming service dates' in text
    I.check(up == (dated and not later), 'upcoming service')
    if up:
        I.check('upcoming service dates Wed Jun 09 to Sat Aug 07:' in text,
                'upcoming range')
        I.check(cell % ('Average trips per date',
                        trips * 42 // 60) in text, 'average')
        I.cover('upcoming')
    I.check('<span class="path">some/dir/</span><b>feed.zip</b>' in text,
            'which feed')
    I.check('extension used: ext.name' in text, 'extension')
    I.cover('agency' if n['agencies'] else 'no agency')
    I.cover('dates' if dated else 'no dates')


def h_cell(I):
    """A problem on the page comes with its file, line and row."""
    fv = I.load('feedvalidator')
    from StringIO import StringIO
    from transitfeed import problems
    I.set_today(base(I))
    acc = fv.HTMLCountingProblemAccumulator(5)
    r = problems.ProblemReporter(acc)
    row = I.int('row', 1, 12)
    n = I.choice('cells', [1, 2, 3])
    cols = ['ca', 'cb', 'cc'][:n]
    bad = I.choice('column', ['ca', 'cb', 'other'])
    lined = I.flag('lined')
    err = I.flag('error')
    vals = ['v%d' % i for i in range(n)]
    if I.flag('blank'):
        vals[0] = ''
    ctx = ('x.txt', row, vals, cols) if lined else ('x.txt',)
    r.InvalidValue(bad, 'zz', 'why', ctx,
                   type=problems.TYPE_ERROR if err else problems.TYPE_WARNING)
    f = StringIO()
    acc.WriteOutput('feed', f, hlib.schedule()[0], None)
    text = f.getvalue()
    line = I.concrete(row)
    if lined:
        I.check('in line %d of <code>x.txt</code>' % line in text, 'line')
        mark = ' class="problem"'
        want = '<table class="dump"><tr>%s</tr>\n<tr>%s</tr></table>' % (
            ''.join(['<th%s>%s</th>' % (mark if c == bad else '', c)
                     for c in cols]),
            ''.join(['<td%s>%s</td>' % (mark if c == bad else '', v)
                     for c, v in zip(cols, vals)]))
        I.check(want in text, 'row shown')
        I.cover('line')
        if bad in cols:
            I.cover('marked')
    else:
        I.check('in <code>x.txt</code>' in text and
                '<table class="dump">' not in text, 'file only')
        I.cover('no line')
    I.check(('<a name="%sInvalidValue">' % ('Error' if err else 'Warning'))
            in text, 'under its kind')
