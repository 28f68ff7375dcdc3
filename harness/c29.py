"""C29: every problem is counted; the exit status tells whether any."""
import hlib
BOUNDS = {'quick': {'stream': 3, 'limit': [0, 1, 5], 'cells': 1},
          'thorough': {'stream': 4, 'limit': [0, 1, 2, 5], 'cells': 2}}
COVERS = {'h_stream': ['error', 'warning', 'notice', 'ignored', 'clean'],
          'h_html': ['error', 'warning', 'notice', 'dropped', 'clean'],
          'h_exit': ['0', '1', 'notice only', 'ignored'],
          'h_file': ['0', '1']}
SECONDS = {'quick': 400}
KINDS = ['InvalidValue', 'MissingValue', 'OtherProblem']


def report(r, kind, i, t):
    if kind == 0:
        r.InvalidValue('col%d' % i, 'v', type=t)
    elif kind == 1:
        r.MissingValue('col%d' % i, type=t)
    else:
        r.OtherProblem('text %d' % i, type=t)


def stream(I, accs):
    """Report a stream of problems to every accumulator; expected counts
    {type: {class: n}}."""
    from transitfeed import problems
    ign = I.choice('ignore', [[], ['InvalidValue'],
                              ['OtherProblem', 'MissingValue'],
                              ['Invalid', 'Value', 'otherproblem',
                               'MissingValues']])
    accs = [a(ign or None) for a in accs]
    want = {0: {}, 1: {}, 2: {}}
    n = I.concrete(I.int('n', 0, I.b['stream']))
    for i in range(n):
        k = I.concrete(I.int('kind%d' % i, 0, 2))
        t = I.int('type%d' % i, 0, 2)
        for a in accs:
            report(problems.ProblemReporter(a), k, i, t)
        t = I.concrete(t)
        if KINDS[k] in ign:
            I.cover('ignored')
            continue
        want[t][KINDS[k]] = want[t].get(KINDS[k], 0) + 1
        I.cover(['error', 'warning', 'notice'][t])
    if not n:
        I.cover('clean')
    return accs, want


def total(d):
    return sum(d[k] for k in d)


def words(w):
    e, x = total(w[0]), total(w[1])
    out = []
    if e:
        out.append('%d error%s' % (e, '' if e == 1 else 's'))
    if x:
        out.append('%d warning%s' % (x, '' if x == 1 else 's'))
    return ' and '.join(out)


def h_stream(I):
    import feedvalidator as fv
    lim = I.choice('limit', I.b['limit'])
    accs, w = stream(I, [
        fv.CountingConsoleProblemAccumulator,
        lambda g: fv.LimitPerTypeProblemAccumulator(lim, g)])
    for a in accs:
        I.check(a.ErrorCount() == total(w[0]), 'errors')
        I.check(a.WarningCount() == total(w[1]), 'warnings')
        I.check(bool(a.HasIssues()) == bool(w[0] or w[1]), 'issues')
        I.check(bool(a.HasNotices()) == bool(w[2]), 'notices')
    I.check(accs[0].NoticeCount() == total(w[2]), 'notice count')
    I.check(accs[0].FormatCount() == words(w), 'words')
    for t in (0, 1, 2):
        m = accs[1].ProblemListMap(t)
        I.check(sorted(m.keys()) == sorted(w[t].keys()), 'kinds')
        for k in w[t]:
            I.check(m[k].count == w[t][k], 'count of a kind')
            I.check(accs[1].ProblemList(t, k) is m[k], 'list of a kind')
            I.check(m[k].dropped_count == max(0, w[t][k] - lim), 'dropped')
            I.check(len(m[k].problems) == min(lim, w[t][k]), 'kept')
            for e in m[k].problems:
                I.check(e.__class__.__name__ == k and e.GetType() == t,
                        'right list')


class Empty(object):
    """A schedule of nothing, for the summary part of the page."""

    def GetAgencyList(self):
        return []
    GetRouteList = GetStopList = GetTripList = GetShapeList = GetAgencyList

    def GetDateRange(self):
        return None, None


def today(I):
    import datetime
    I.set_today(datetime.date(2010, 6, 1))


def h_html(I):
    today(I)
    import feedvalidator as fv
    from StringIO import StringIO
    lim = I.choice('limit', I.b['limit'])
    accs, w = stream(I, [
        lambda g: fv.HTMLCountingProblemAccumulator(lim, g)])
    f = StringIO()
    accs[0].WriteOutput('dir/feed.zip', f, Empty(), None)
    text = f.getvalue()
    shown = sum(min(lim, w[t][k]) for t in w for k in w[t])
    I.check(text.count('<li><div class="problem') == shown, 'problems shown')
    I.check(text.count('<h4 class="issueHeader">') ==
            sum(len(w[t]) for t in w), 'a heading per kind')
    more = [w[t][k] - lim for t in w for k in w[t] if w[t][k] > lim]
    I.check(text.count(' more of this type.') == len(more), 'more')
    for m in more:
        I.cover('dropped')
        I.check('<li>and %d more of this type.' % m in text, 'how many more')
    ok = not (w[0] or w[1])
    I.check(('feed validated successfully' in text) == ok, 'success')
    I.check(('Found th' in text) == (not ok), 'failure')
    for t, name in ((0, 'error'), (1, 'warning')):
        n = total(w[t])
        if n:
            I.check('<span class="fail">%d %s%s</span>' % (
                n, name, '' if n == 1 else 's') in text, 'total')
        for k in w[t]:
            I.check('<tr><td>%d</td><td><a href="#%s%s">' % (
                w[t][k], name.capitalize(), k) in text, 'per kind')


class Options(object):
    latest_version = '0.1'
    extension = None
    memory_db = True
    check_duplicate_trips = False
    service_gap_interval = 13
    limit_per_type = 5
    output = 'CONSOLE'
    manual_entry = False
    error_types_ignore_list = None


def feed_with(I):
    """A feed with symbolic cells in several places, as an open zip."""
    from StringIO import StringIO
    import zipfile
    ch = {'calendar_dates.txt': ['service_id,date,exception_type',
                                 'SV,20100705,2']}
    which = I.choice('which', ['bikes', 'type', 'dup', 'extra', 'unused'])
    if which == 'bikes':
        b = I.str('bikes', 0, 1, '0123x')
        ch['trips.txt'] = ['route_id,service_id,trip_id,bikes_allowed',
                           'R1,SV,T1,' + b]
    elif which == 'type':
        ch['routes.txt'] = [hlib.FEED['routes.txt'][0],
                            'R1,AG,1,First,' + I.str('type', 1, 1, '37x')]
    elif which == 'dup':
        ch['stops.txt'] = ('+', ['%s,Two,40.0,50.0' % I.choice(
            'id', ['S1', 'S3'])])
    elif which == 'extra':
        ch['routes.txt'] = [hlib.FEED['routes.txt'][0] + ',more',
                            'R1,AG,1,First,3,x'] if I.flag('column') else \
            hlib.FEED['routes.txt']
        if I.flag('file'):
            ch['odd.txt'] = ['a', 'b']
    else:
        lat = I.choice('lat', ['10.01', '10.0', '60.0'])
        ch['stops.txt'] = hlib.FEED['stops.txt'][:2] + [
            'S2,Two,%s,20.01' % lat]
    f = StringIO()
    z = zipfile.ZipFile(f, 'w')
    files = hlib.feed(ch)
    for k in sorted(files):
        if files[k].strip():
            z.writestr(k, files[k])
    z.close()
    f.seek(0)
    return f, files


def h_exit(I):
    import feedvalidator as fv
    today(I)
    f, files = feed_with(I)
    o = Options()
    ign = I.choice('ignore', [None, ['InvalidValue'],
                              ['UnrecognizedColumn', 'UnknownFile']])
    o.error_types_ignore_list = ign
    if I.flag('newer'):
        o.latest_version = '999.0'
    code = fv.RunValidationOutputFromOptions(f, o)
    s, r, acc = hlib.load_feed(files, extra_validation=False)
    s.Validate(service_gap_interval=13, validate_children=False)
    if o.latest_version == '999.0':
        r.NewVersionAvailable('999.0')
    left = [e for e in acc.problems
            if not ign or e.__class__.__name__ not in ign]
    bad = [e for e in left if e.GetType() != 2]
    I.log('kinds', acc.kinds())
    I.log('code', code)
    I.check(code == (1 if bad else 0), 'exit status')
    I.cover(str(code))
    if left and not bad:
        I.cover('notice only')
    if len(left) < len(acc.problems):
        I.cover('ignored')


def h_file(I):
    import feedvalidator as fv
    from StringIO import StringIO
    today(I)
    f, files = feed_with(I)
    out = StringIO()
    o = Options()
    code = fv.RunValidationOutputToFile(f, o, out)
    s, r, acc = hlib.load_feed(files, extra_validation=False)
    s.Validate(service_gap_interval=13, validate_children=False)
    bad = [e for e in acc.problems if e.GetType() != 2]
    I.check(code == (1 if bad else 0), 'exit status')
    text = out.getvalue()
    I.check(('feed validated successfully' in text) == (not bad), 'says so')
    I.cover(str(code))
