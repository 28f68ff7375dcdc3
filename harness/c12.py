"""C12: expansion of frequency trips."""
import hlib
BOUNDS = {'quick': {'stops': 3, 'runs': 3, 'windows': 2},
          'thorough': {'stops': 4, 'runs': 5, 'windows': 3}}
COVERS = {'h_starts': ['empty window', 'full window', 'none'],
          'h_stop_times': ['timed', 'untimed']}


def window(I, w):
    a = I.int('start%d' % w, 0, 200000)
    h = I.int('headway%d' % w, 1, 20000)
    b = I.int('end%d' % w, 0, 260000)
    I.assume(b <= a + I.b['runs'] * h)
    return a, b, h


def runs_of(I, a, b, h):
    out = []
    k = 0
    while k <= I.b['runs'] and a + k * h < b:
        out.append(a + k * h)
        k += 1
    return out


def h_starts(I):
    s, r, acc, route, sp, stops = hlib.basic(1)
    trip = route.AddTrip(s, 'head', sp, 'T')
    other = route.AddTrip(s, 'head', sp, 'OTHER')
    other.AddFrequency('06:00:00', '07:00:00', 600, 0, r)
    want = []
    n = I.choice('windows', range(0, I.b['windows'] + 1))
    for w in range(n):
        a, b, h = window(I, w)
        trip.AddFrequency(a, b, h, I.int('exact%d' % w, 0, 1), r)
        one = runs_of(I, a, b, h)
        want += one
        I.cover('full window' if one else 'empty window')
    got = trip.GetFrequencyStartTimes()
    I.log('starts', got)
    I.check(len(got) == len(want), 'number of runs')
    I.check(I.all([I.count([x == y for y in got]) ==
                   I.count([x == y for y in want]) for x in want]),
            'start times')
    I.check(I.all([x <= y for x, y in zip(got, got[1:])]), 'in order')
    if not want:
        I.cover('none')
    I.check(len(other.GetFrequencyStartTimes()) == 6, 'other trip')


FIELDS = ('stop_headsign', 'pickup_type', 'drop_off_type',
          'shape_dist_traveled', 'timepoint', 'stop_sequence')


def h_stop_times(I):
    s, r, acc, route, sp, stops = hlib.basic(2)
    trip = route.AddTrip(s, 'head', sp, 'T')
    a, b, h = window(I, 0)
    trip.AddFrequency(a, b, h, 0, r)
    if I.flag('two'):
        trip.AddFrequency(250000, 250001, 60, 1, r)
    n = I.choice('n', range(1, I.b['stops'] + 1))
    given = []
    for i in range(n):
        f = {}
        if i == 0 or I.flag('timed%d' % i):
            f['arrival_secs'] = I.int('arr%d' % i, 0, 100000)
            f['departure_secs'] = I.int('dep%d' % i, 0, 100000)
            I.assume(f['departure_secs'] >= f['arrival_secs'])
        f['stop_headsign'] = [None, 'Downtown'][i % 2]
        f['pickup_type'] = I.int('pick%d' % i, 0, 3)
        f['drop_off_type'] = I.int('drop%d' % i, 0, 3)
        if 'arrival_secs' not in f:
            I.assume(I.Not(I.And(f['pickup_type'] == 1,
                                 f['drop_off_type'] == 1)))
        f['timepoint'] = I.int('tp%d' % i, 0, 1)
        f['shape_dist_traveled'] = I.real('dist%d' % i, 0, 1000, 4)
        hlib.put(s, trip, stops[i % 2], 2 * i, **f)
        f['stop_sequence'] = 2 * i
        given.append(f)
    starts = trip.GetFrequencyStartTimes()
    got = trip.GetFrequencyStopTimes(r)
    I.check(len(got) == len(starts), 'one list per run')
    I.log('n', len(got))
    for run, t in zip(got, starts):
        I.check(len(run) == n, 'one stop time per stop')
        for i, (st, f) in enumerate(zip(run, given)):
            I.check(st.stop is stops[i % 2], 'stop')
            for fn in FIELDS:
                I.check(getattr(st, fn) == f[fn], fn)
            if 'arrival_secs' in f:
                d = t - given[0]['arrival_secs']
                I.check(I.And(st.arrival_secs == f['arrival_secs'] + d,
                              st.departure_secs == f['departure_secs'] + d),
                        'times shifted')
                I.cover('timed')
            else:
                I.check(st.arrival_secs is None and
                        st.departure_secs is None, 'stays untimed')
                I.cover('untimed')
    # the pattern itself is unchanged
    pat = trip.GetStopTimes(r)
    for st, f in zip(pat, given):
        I.check(st.arrival_secs == f.get('arrival_secs'), 'pattern kept')
