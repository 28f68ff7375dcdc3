"""C13: admission of frequencies and overlapping windows."""
import hlib
BOUNDS = {'quick': {'windows': 3, 'hdigits': 3},
          'thorough': {'windows': 4, 'hdigits': 4}}
COVERS = {'h_numbers': ['stored', 'refused', 'reported'],
          'h_texts': ['stored', 'refused', 'reported'],
          'h_headway': ['stored', 'refused'],
          'h_file': ['stored', 'refused', 'bad flag'],
          'h_overlap': ['overlap', 'apart']}
TEXTS = [(None, 'blank'), ('', 'blank'), ('x', 'bad'), ('-1:00:00', 'bad'),
         ('7:60:00', 'bad'), ('7:00', 'bad'), ('7:00:00', 25200),
         ('07:00:01', 25201), ('00:00:00', 0), ('25:10:00', 90600)]


def trip_of(I):
    s, r, acc, route, sp, stops = hlib.basic(1)
    trip = route.AddTrip(s, 'head', sp, 'T')
    other = route.AddTrip(s, 'head', sp, 'OTHER')
    acc.clear()
    return s, r, acc, trip, other


def add(I, trip, r, a, b, h, x):
    how = I.choice('how', ['new', 'old'])
    if how == 'new':
        trip.AddFrequency(a, b, h, x, r)
    else:
        I.assume(x == 0)
        trip.AddHeadwayPeriod(a, b, h, r)


def h_numbers(I):
    s, r, acc, trip, other = trip_of(I)
    a = I.int('start', -1000, 200000)
    b = I.int('end', -1000, 200000)
    h = I.int('headway', -1000, 100000)
    x = I.int('exact', -2, 3)
    add(I, trip, r, a, b, h, x)
    got = trip.GetFrequencyTuples()
    bad = I.Or(a < 0, b < 0, h <= 0)
    I.check(I.Iff(len(got) == 0, bad), 'stored iff admissible')
    I.log('kinds', acc.kinds())
    I.check(I.Iff(len(acc.problems) > 0,
                  I.Or(bad, b <= a, I.And(x != 0, x != 1))), 'reported iff')
    if got:
        I.check(len(got) == 1, 'stored once')
        I.check(I.And(got[0][0] == a, got[0][1] == b, got[0][2] == h),
                'window kept')
        I.check(I.Implies(I.Or(x == 0, x == 1), got[0][3] == x),
                'flag kept')
        I.check(I.Iff(b <= a, len(acc.on('end_time')) == 1), 'end column')
        I.check(I.Iff(I.And(x != 0, x != 1),
                      len(acc.on('exact_times')) == 1), 'flag column')
    else:
        I.check(len(acc.problems) == 1, 'one report')
    I.check(other.GetFrequencyTuples() == [], 'other trip')
    I.cover('stored' if got else 'refused')
    if got and acc.problems:
        I.cover('reported')


def h_texts(I):
    s, r, acc, trip, other = trip_of(I)
    ta, a = TEXTS[I.choice('start', range(len(TEXTS)))]
    tb, b = TEXTS[I.choice('end', range(len(TEXTS)))]
    h = I.int('headway', 1, 100000)
    trip.AddFrequency(ta, tb, h, 0, r)
    got = trip.GetFrequencyTuples()
    bad = a in ('bad', 'blank') or b in ('bad', 'blank')
    I.log('kinds', acc.kinds())
    I.check((len(got) == 0) == bad, 'stored iff readable')
    if bad:
        col = 'start_time' if a in ('bad', 'blank') else 'end_time'
        v = a if a in ('bad', 'blank') else b
        I.check(len(acc.on(col)) == 1 and len(acc.problems) == 1, 'report')
        I.check(acc.problems[0].__class__.__name__ ==
                ('InvalidValue' if v == 'bad' else 'MissingValue'), 'kind')
        I.cover('refused')
    else:
        I.check(I.And(got[0][0] == a, got[0][1] == b, got[0][2] == h),
                'window kept')
        I.check(len(acc.problems) == (1 if b <= a else 0), 'report')
        I.cover('reported' if b <= a else 'stored')


def h_headway(I):
    """Headway text."""
    s, r, acc, trip, other = trip_of(I)
    t = I.str('headway', 0, I.b['hdigits'], '0129-. x')
    trip.AddFrequency('6:00:00', '7:00:00', t, 0, r)
    got = trip.GetFrequencyTuples()
    digits = t.strip()
    good = False
    if digits and digits.isdigit():
        good = int(digits) > 0
    I.log('kinds', acc.kinds())
    I.check(len(got) == (1 if good else 0), 'stored iff a positive integer')
    I.check(len(acc.on('headway_secs')) == (0 if good else 1), 'reported')
    I.check(len(acc.problems) == (0 if good else 1), 'nothing else')
    if good:
        I.check(got[0][2] == int(digits), 'value')
    I.cover('stored' if good else 'refused')


def h_file(I):
    """A row of frequencies.txt."""
    from transitfeed import frequency
    s, r, acc, trip, other = trip_of(I)
    d = {'trip_id': I.choice('trip', ['T', 'GONE'])}
    d['start_time'] = '6:00:00'
    d['end_time'] = I.choice('end', ['7:00:00', 'x', None])
    d['headway_secs'] = '600'
    opts = [None, '', '0', '1', '2', 'x', '-1', '1.0']
    x = I.choice('exact', range(len(opts)))
    if opts[x] is not None:
        d['exact_times'] = opts[x]
    f = frequency.Frequency(d)
    f.ValidateBeforeAdd(r)
    f.AddToSchedule(s, r)
    f.ValidateAfterAdd(r)
    got = trip.GetFrequencyTuples()
    flag_ok = x <= 3
    I.log('kinds', acc.kinds())
    if not flag_ok:
        I.check(len(acc.on('exact_times')) >= 1, 'flag reported')
        I.cover('bad flag')
    else:
        I.check(len(acc.on('exact_times')) == 0, 'flag not reported')
    I.check(len(acc.on('trip_id')) == (1 if d['trip_id'] == 'GONE' else 0),
            'trip reported')
    good = d['trip_id'] == 'T' and d['end_time'] == '7:00:00'
    I.check(len(got) == (1 if good else 0), 'stored')
    if good and flag_ok:
        I.check(got[0] == (21600, 25200, 600, 1 if opts[x] == '1' else 0),
                'window kept')
        I.check(not acc.problems, 'no report')
        I.cover('stored')
    elif not good:
        I.check(len(acc.problems) >= 1, 'report')
        I.cover('refused')
    I.check(other.GetFrequencyTuples() == [], 'other trip')


def h_overlap(I):
    s, r, acc, trip, other = trip_of(I)
    n = I.choice('n', range(0, I.b['windows'] + 1))
    ws = []
    for i in range(n):
        a = I.int('start%d' % i, 0, 200000)
        b = I.int('end%d' % i, 0, 200000)
        I.assume(a < b)
        trip.AddFrequency(a, b, 600, 0, r)
        ws.append((a, b))
    other.AddFrequency('00:00:00', '99:00:00', 600, 0, r)
    acc.clear()
    trip.ValidateFrequencies(r)
    got = acc.of('OtherProblem')
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    over = [I.And(ws[i][0] < ws[j][1], ws[j][0] < ws[i][1])
            for i, j in pairs]
    I.log('n', len(got))
    I.check(len(got) == I.count(over), 'one report per overlapping pair')
    I.check(len(acc.problems) == len(got), 'nothing else')
    I.cover('overlap' if got else 'apart')
