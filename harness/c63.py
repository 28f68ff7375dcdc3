"""C63: every command-line tool does what its options say."""
import hlib
BOUNDS = {'quick': {}, 'thorough': {}}
COVERS = {'h_validator': ['file', 'console', 'clean', 'problems', 'prompt',
                          'no feed', 'unwritable'],
          'h_merge': ['merged', 'not disjoint', 'cut off', 'bad feed',
                      'wrong arguments'],
          'h_kml': ['named', 'default', 'bad feed', 'no feed'],
          'h_unusual': ['marked', 'kept'],
          'h_from_kml': ['written', 'wrong arguments'],
          'h_pathways': ['default', 'named'],
          'h_translations': ['default', 'named', 'usage'],
          'h_viewer': ['served', 'no files']}
SECONDS = {'quick': 700, 'thorough': 3000}
ASSUMPTIONS = ['files, the browser and the web server are stand-ins that '
               'record what they are asked for']


class Disk(object):
    """Feeds by base name, in place of os and zipfile in the loader."""

    class BadZipfile(Exception):
        pass

    def __init__(self, feeds):
        self.path = self
        self.feeds = feeds

    def base(self, p):
        return p.split('/')[-1]

    def exists(self, p):
        return self.base(p) in self.feeds

    def isdir(self, p):
        return False

    def ZipFile(self, path, mode='r'):
        if self.base(path) not in self.feeds:
            raise IOError(path)
        return hlib.FakeZip(self.feeds[self.base(path)])


class Out(object):
    """A file being written."""

    def __init__(self):
        self.text = ''
        self.closed = False

    def write(self, s):
        self.text += s

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Files(object):
    """Opened files by name."""

    def __init__(self, refuse=()):
        self.out = {}
        self.refuse = refuse

    def open(self, name, mode='r'):
        if name in self.refuse:
            raise IOError('refused')
        self.out[name] = Out()
        return self.out[name]


class Browser(object):
    def __init__(self):
        self.seen = []

    def open(self, url):
        self.seen.append(url)


def run(I, main, argv):
    """Run a tool; its exit status."""
    import sys
    old = sys.argv
    sys.argv = ['tool'] + argv
    try:
        try:
            return main()
        except SystemExit as e:
            return 'exit %s' % e.code
    finally:
        sys.argv = old


def world(I, feeds):
    from transitfeed import loader
    disk = Disk(feeds)
    I.patch(loader, 'os', disk)
    I.patch(loader, 'zipfile', disk)
    return disk


def page(text):
    """The kinds listed with their numbers, and the listed problems."""
    kinds = {}
    for part in text.split('<tr><td>')[1:]:
        n = part[:part.find('<')]
        if not part[len(n):].startswith('</td><td><a href="#'):
            continue
        k = part[part.find('#') + 1:]
        kinds[k[:k.find('"')]] = int(n)
    return kinds, len(text.split('<div class="problem">')) - 1


WEEK = 'monday,tuesday,wednesday,thursday,friday,saturday,sunday'


def h_validator(I):
    """feedvalidator.py."""
    import datetime
    fv = I.load('feedvalidator')
    I.set_today(datetime.date(2010, 6, 1))
    bad = I.choice('feed', ['clean', 'bad types', 'gap', 'twins'])
    ch = {'calendar_dates.txt': ['service_id,date,exception_type',
                                 'SV,20100704,2']}
    if bad == 'bad types':
        ch['routes.txt'] = [hlib.FEED['routes.txt'][0]] + [
            'R%d,AG,%d,No %d,700' % (i, i, i + 100) for i in range(1, 4)]
    elif bad == 'gap':
        # ten days without service
        ch['calendar.txt'] = [hlib.FEED['calendar.txt'][0],
                              'SV,1,1,1,1,1,1,1,20100501,20100610',
                              'SW,1,1,1,1,1,1,1,20100621,20100901']
        ch['trips.txt'] = ('+', ['R1,SW,T2'])
        ch['stop_times.txt'] = ('+', ['T2,08:00:00,08:00:00,S1,1',
                                      'T2,08:10:00,08:10:00,S2,2'])
    elif bad == 'twins':
        ch['trips.txt'] = ('+', ['R1,SV,T2'])
        ch['stop_times.txt'] = ('+', ['T2,08:00:00,08:00:00,S1,1',
                                      'T2,08:10:00,08:10:00,S2,2'])
    world(I, {'feed.zip': hlib.feed(ch)})
    files, web = Files(['bad.html']), Browser()
    fv.open = files.open
    I.patch(fv, 'webbrowser', web)
    argv = ['--latest_version', '0.1']
    out = I.choice('output', ['default', 'named', 'console', 'refused'])
    if out != 'default':
        argv += [I.choice('flag', ['-o', '--output']),
                 {'named': 'x.html', 'console': 'Console',
                  'refused': 'bad.html'}[out]]
    memory = I.flag('memory')
    if memory:
        argv.append('-m')
    twins = bad == 'twins' and I.flag('twins')
    if twins:
        argv.append('-d')
    gap = I.choice('gap', [None, 10, 11]) if bad == 'gap' else None
    if gap is not None:
        argv += ['--service_gap_interval', str(gap)]
    limit, google, ignore = None, False, False
    if bad == 'bad types':
        limit = I.choice('limit', [None, 2])
        google = I.flag('google')
        ignore = I.flag('ignore')
    if limit is not None:
        argv += ['-l', str(limit)]
    if google:
        argv += ['--extension', 'extensions.googletransit']
    if ignore:
        argv += ['--error_types_ignore_list', 'InvalidValue,UnusedStop']
    prompt = I.flag('prompt')
    given = I.flag('given')
    fv.raw_input = lambda s: '"feed.zip"'
    if not prompt:
        argv.append('-n')
    if given:
        argv.append('feed.zip')
    code = run(I, fv.main, argv)
    if not given and not prompt:
        I.check(code == 'exit 2', 'a feed is needed')
        I.check(not files.out and not web.seen, 'nothing is done')
        I.cover('no feed')
        return
    if not given:
        I.cover('prompt')
    want = {}
    if bad == 'bad types' and not google and not ignore:
        want['WarningInvalidValue'] = 3
    if bad == 'twins' and twins:
        want['WarningDuplicateTrip'] = 1
    if bad == 'gap' and gap == 10:
        want['WarningTooManyDaysWithoutService'] = 1
    if out == 'refused':
        I.check(code == 2, 'an unwritable report is a failure')
        I.check(not web.seen, 'nothing to show')
        I.cover('unwritable')
        return
    I.check(code == (1 if want else 0), 'exit status')
    I.cover('problems' if want else 'clean')
    if out == 'console':
        I.check(not files.out and not web.seen or prompt, 'no file')
        I.check(not files.out, 'no report file')
        I.cover('console')
        return
    name = 'x.html' if out == 'named' else 'validation-results.html'
    I.check(list(files.out) == [name], 'the report is where it was asked')
    f = files.out[name]
    I.check(f.closed, 'complete')
    got, listed = page(f.text)
    I.log('got', sorted(got.items()))
    I.check(got == want, 'problems found')
    n = sum(want.values())
    I.check(listed == (min(n, limit) if limit else n), 'problems listed')
    I.check(('used: extensions.googletransit\n' in f.text) == google,
            'extension')
    I.check(len(web.seen) == (1 if prompt else 0), 'shown on demand')
    for u in web.seen:
        I.check(u.startswith('file://') and u.endswith('/' + name), 'address')
    I.cover('file')


def h_merge(I):
    """merge.py."""
    import datetime
    import transitfeed
    I.set_today(datetime.date(2010, 6, 1))
    m = I.load('merge')
    ch = {'calendar.txt': [hlib.FEED['calendar.txt'][0],
                           'SV,1,1,1,1,1,0,0,20110101,20111231']}
    near = I.flag('near')
    if near:
        ch['stops.txt'] = [hlib.FEED['stops.txt'][0], 'S1,One,10.0005,20.0',
                           'S2,Two,10.01,20.01']
    over = I.flag('overlap')
    if over:
        ch['calendar.txt'][1] = 'SV,1,1,1,1,1,0,0,20101201,20111231'
    if I.flag('bad'):
        ch['trips.txt'] = None
        ch['routes.txt'] = [hlib.FEED['routes.txt'][0], 'R1,NO,1,First,3']
    bad = 'trips.txt' in ch
    world(I, {'old.zip': hlib.feed({}), 'new.zip': hlib.feed(ch)})
    files, web = Files(), Browser()
    m.file = files.open
    m.open = files.open
    I.patch(m, 'webbrowser', web)
    written = []

    def write(self, name):
        written.append((name, self))
    I.patch(transitfeed.Schedule, 'WriteGoogleTransitFeed', write)
    argv = ['--latest_version', '0.1']
    quiet = I.flag('no_browser')
    if quiet:
        argv.append('--no_browser')
    named = I.flag('named')
    if named:
        argv += ['--html_output_path', 'r.html']
    cut = I.choice('cutoff', [None, '20101201', '20110301'])
    if cut:
        argv += ['--cutoff_date', cut]
    far = I.choice('distance', [None, '60', '50'])
    if far:
        argv += ['--largest_stop_distance', far]
    if I.flag('memory'):
        argv.append('-m')
    n = I.choice('arguments', [3, 2])
    code = run(I, m.main, argv + ['old.zip', 'new.zip', 'out.zip'][:n])
    if n != 3:
        I.check(code == 'exit 2', 'three feeds are needed')
        I.cover('wrong arguments')
    elif bad:
        I.check(code == 'exit 1', 'a bad feed is refused')
        I.cover('bad feed')
    if n != 3 or bad:
        I.check(not written and not files.out and not web.seen,
                'nothing is written')
        return
    I.check(not code, 'success')
    ok = not over or cut is not None
    I.check(len(written) == (1 if ok else 0), 'written iff merged')
    name = 'r.html' if named else 'merge-results.html'
    I.check(list(files.out) == [name], 'the report')
    text = files.out[name].text
    I.check(files.out[name].closed, 'complete')
    for k, p in (('Old feed: ', 'old.zip'), ('New feed: ', 'new.zip'),
                 ('Merged feed created: ', 'out.zip')):
        at = text.find('<p>' + k)
        if p == 'out.zip' and not ok:
            I.check(at < 0, 'no merged feed')
        else:
            line = text[at:text.find('</p>', at)]
            I.check(at >= 0 and line.endswith('/' + p + '</code>'), 'paths')
    I.check(len(web.seen) == (0 if quiet else 1), 'shown unless not wanted')
    for u in web.seen:
        I.check(u.endswith('/' + name), 'address')
    if not ok:
        I.check('errors: 1' in text, 'told')
        I.cover('not disjoint')
        return
    I.check(written[0][0].endswith('/out.zip'), 'name')
    s = written[0][1]
    # a tenth of a mile apart or not
    same = 1 if near and far != '60' else 2
    I.check(len(s.GetStopList()) == 4 - same, 'stops')
    row = '<tr><th class="header">%s</th><td class="header">%d</td>' \
        '<td class="header">%d</td><td class="header">%d</td></tr>'
    I.check(row % ('Stops', same, 2 - same, 2 - same) in text,
            'stops counted')
    I.check(row % ('Agencies', 1, 0, 0) in text, 'agencies counted')
    I.check(row % ('Routes', 1, 0, 0) in text, 'routes counted')
    ranges = sorted([p.GetDateRange() for p in s.GetServicePeriodList()])
    want = [('20100101', '20101231'),
            ('20101201' if over else '20110101', '20111231')]
    if cut == '20101201':
        want[0] = ('20100101', '20101130')
    elif cut == '20110301':
        want[1] = ('20110301', '20111231')
    I.check(ranges == want, 'ranges')
    I.check(len(s.GetTripList()) == 2, 'trips')
    I.cover('merged')
    if cut:
        I.cover('cut off')


def h_kml(I):
    """kmlwriter.py."""
    k = I.load('kmlwriter')
    ch = {}
    if I.flag('bad'):
        ch['routes.txt'] = [hlib.FEED['routes.txt'][0], 'R1,NO,1,First,3']
    world(I, {'feed.zip': hlib.feed(ch), 'feed': hlib.feed(ch),
              'a.b.zip': hlib.feed(ch)})
    asked = []

    def write(self, feed, name):
        asked.append((name, feed, [
            bool(self.show_trips), self.altitude_per_sec,
            bool(self.split_routes), self.date_filter,
            bool(self.shape_points), bool(self.show_stop_hierarchy)]))
    I.patch(k.KMLWriter, 'Write', write)
    argv, want = [], [False, 1.0, False, None, False, False]
    for i, names in ((0, ['-t', '--showtrips']), (2, ['-s', '--splitroutes']),
                     (4, ['-p', '--display_shape_points']),
                     (5, ['--show_stop_hierarchy'])):
        if I.flag(names[0]):
            argv.append(I.choice('how ' + names[0], names)
                        if i == 0 else names[-1])
            want[i] = True
    if I.flag('altitude'):
        argv += ['-a', '2.5']
        want[1] = 2.5
    if I.flag('day'):
        argv += ['-d', '20100105']
        want[3] = '20100105'
    src = I.choice('source', [None, 'feed.zip', 'dir/feed.zip', 'a.b.zip'])
    if src:
        argv.append(src)
    out = I.choice('out', [None, 'x.kml']) if src else None
    if out:
        argv.append(out)
    code = run(I, k.main, argv)
    if not src:
        I.check(code == 'exit 2' and not asked, 'a feed is needed')
        I.cover('no feed')
    elif ch:
        I.check(code == 'exit 1' and not asked, 'a bad feed is refused')
        I.cover('bad feed')
    else:
        I.check(not code, 'success')
        I.check(len(asked) == 1, 'written once')
        I.check(asked[0][0] == (out or src[:-4] + '.kml'), 'file name')
        I.check(asked[0][2] == want, 'options')
        I.check(len(asked[0][1].GetStopList()) == 2, 'the feed')
        I.cover('named' if out else 'default')


def h_unusual(I):
    """unusual_trip_filter.py."""
    import datetime
    import transitfeed
    I.set_today(datetime.date(2010, 6, 1))
    u = I.load('unusual_trip_filter')
    trips = ['route_id,service_id,trip_id,trip_type']
    times = [hlib.FEED['stop_times.txt'][0]]
    old = I.flag('old')
    for i in range(5):
        trips.append('R1,SV,T%d,%s' % (i, '7' if old else ''))
        order = ('S2', 'S1') if i == 4 else ('S1', 'S2')
        times += ['T%d,08:0%d:00,08:0%d:00,%s,1' % (i, i, i, order[0]),
                  'T%d,08:1%d:00,08:1%d:00,%s,2' % (i, i, i, order[1])]
    world(I, {'feed.zip': hlib.feed({'trips.txt': trips,
                                     'stop_times.txt': times})})
    written = []

    def write(self, name):
        written.append((name, dict((t.trip_id, t['trip_type'])
                                   for t in self.GetTripList())))
    I.patch(transitfeed.Schedule, 'WriteGoogleTransitFeed', write)
    argv = []
    out = I.choice('output', [None, 'o.zip'])
    if out:
        argv += ['-o', out]
    limit = I.choice('threshold', [None, '0.2', '0.3'])
    if limit:
        argv += ['-t', limit]
    kind = I.choice('kind', [None, '3', 'Bus', 'Tram'])
    if kind:
        argv += ['-r', kind]
    force = I.flag('force')
    if force:
        argv.append('-f')
    if I.flag('quiet'):
        argv.append('-q')
    if I.flag('memory'):
        argv.append('-m')
    n = I.choice('feeds', [1, 0])
    code = run(I, u.main, argv + ['feed.zip'] * n)
    if n == 0:
        I.check(code == 'exit 2' and not written, 'a feed is needed')
        return
    I.check(not code and len(written) == 1, 'written once')
    I.check(written[0][0] == (out or 'feed.zip'), 'where it was asked')
    mark = limit == '0.3' and kind != 'Tram'
    I.log('types', written[0][1])
    for i in range(5):
        was = '7' if old else ''
        want = was
        if kind != 'Tram' and force:
            want = '1' if mark and i == 4 else '0'
        elif mark and i == 4:
            want = '1'
        I.check(str(written[0][1]['T%d' % i]) == want, 'trip type')
    I.cover('marked' if mark else 'kept')


def h_from_kml(I):
    """kmlparser.py."""
    import transitfeed
    k = I.load('kmlparser')
    asked, written = [], []

    def parse(self, name, feed):
        asked.append((name, feed))
    I.patch(k.KmlParser, 'Parse', parse)

    def write(self, name):
        written.append((name, self))
    I.patch(transitfeed.Schedule, 'WriteGoogleTransitFeed', write)
    n = I.choice('arguments', [0, 1, 2, 3])
    code = run(I, k.main, ['a.kml', 'b.zip', 'c'][:n])
    if n == 2:
        I.check(not code and [x[0] for x in asked] == ['a.kml'], 'reads')
        I.check(len(written) == 1 and written[0][0] == 'b.zip', 'writes')
        I.check(written[0][1] is asked[0][1], 'the same feed')
        I.cover('written')
    else:
        I.check(code == 'exit 2' and not asked and not written, 'refused')
        I.cover('wrong arguments')


def h_pathways(I):
    """visualize_pathways.py."""
    v = I.load('visualize_pathways')
    files, calls = Files(), []
    v.open = files.open
    I.patch(v, 'GtfsReader', lambda d: ('feed', d))
    I.patch(v, 'gtfs_to_graphviz', lambda g, ids=None: 'graph of %s %s %s' %
            (g[0], g[1], ids))

    class Sub(object):
        def call(self, args):
            calls.append(list(args))
    I.patch(v, 'subprocess', Sub())
    argv = []
    dot = I.choice('dot', [None, 'x.dot', 'd/y.gv'])
    if dot:
        argv += [I.choice('how', ['-d', '--dot']), dot]
    png, svg = I.flag('png'), I.flag('svg')
    if png:
        argv.append('-p')
    if svg:
        argv.append('--svg')
    ids = I.choice('ids', [None, 'A', 'A,B'])
    if ids:
        argv += ['-s', ids]
    folder = I.choice('folder', ['f', 'a/f/'])
    code = run(I, v.main, argv + [folder])
    I.check(not code, 'success')
    name = dot or {'f': 'f.dot', 'a/f/': 'a/f.dot'}[folder]
    I.check(list(files.out) == [name], 'graph file')
    I.check(files.out[name].text == 'graph of feed %s %s' % (folder, ids),
            'the graph')
    stem = name.rsplit('.', 1)[0]
    want = []
    for on, t in ((png, 'png'), (svg, 'svg')):
        if on:
            want.append(['dot', '-T', t, '-o', stem + '.' + t, name])
    I.check(calls == want, 'images')
    I.cover('named' if dot else 'default')


def h_translations(I):
    """upgrade_translations.py."""
    u = I.load('upgrade_translations')
    asked = []

    class Converter(object):
        def __init__(self, src):
            self.src = src

        def convert_translations(self, dest):
            asked.append((self.src, dest))
    I.patch(u, 'TranslationsConverter', Converter)
    src = I.choice('source', [None, 'f', 'a/f/', 'a/f'])
    dest = I.choice('dest', [None, 'd/']) if src else None
    code = run(I, u.main, [x for x in (src, dest) if x])
    if not src:
        I.check(code == 'exit 1' and not asked, 'usage')
        I.cover('usage')
        return
    base = {'f': 'f', 'a/f/': 'a/f', 'a/f': 'a/f'}[src]
    I.check(not code and len(asked) == 1, 'converted once')
    I.check(asked[0][0] == base, 'source')
    I.check(asked[0][1] == (dest or base + '_upgraded'), 'destination')
    I.cover('named' if dest else 'default')


def h_viewer(I):
    """schedule_viewer.py."""
    import transitfeed
    v = I.load('schedule_viewer')
    there = I.flag('there')
    keyfile = I.choice('key', [None, 'KEY', 'key.txt', 'default'])
    loaded, served = [], []

    class Path(object):
        def isfile(self, p):
            if p == 'dir/index.html':
                return there
            return p == 'key.txt' or (p == 'std.txt' and
                                      keyfile == 'default')

        def join(self, a, b):
            return a + '/' + b

    class Os(object):
        path = Path()
    I.patch(v, 'os', Os())
    I.patch(v, 'FindDefaultFileDir', lambda: 'dir')
    I.patch(v, 'GetDefaultKeyFilePath', lambda: 'std.txt')

    class Text(object):
        def __init__(self, t):
            self.t = t

        def read(self):
            return self.t
    v.open = lambda n, mode='r': Text(' from %s\n' % n)

    class Server(object):
        def __init__(self, server_address, RequestHandlerClass):
            self.server_port = server_address[1]
            self.handler = RequestHandlerClass

        def serve_forever(self):
            served.append(self)
    I.patch(v, 'StoppableHTTPServer', Server)
    I.patch(transitfeed.Schedule, 'Load',
            lambda self, name, *a, **k: loaded.append((name, self)))
    I.patch(v.util, 'CheckVersion', lambda *a, **k: None)
    v.raw_input = lambda s: '"asked.zip"'
    argv = []
    port = I.choice('port', [None, '99'])
    if port:
        argv += ['--port', port]
    host = I.choice('host', [None, 'maps.example'])
    if host:
        argv += ['--host', host]
    if keyfile in ('KEY', 'key.txt'):
        argv += ['--key', keyfile]
    feed = I.choice('feed', ['option', 'argument', 'asked'])
    if feed == 'option':
        argv += ['--feed', 'f.zip']
    elif feed == 'argument':
        argv.append('f.zip')
    if feed != 'asked' and I.flag('noprompt'):
        argv.append('-n')

    def handler():
        pass

    def go():
        return v.main(handler)
    v.exit = __import__('sys').exit
    code = run(I, go, argv)
    if not there:
        I.check(code == 'exit 1' and not served and not loaded,
                'the files are needed')
        I.cover('no files')
        return
    I.check(not code and len(served) == 1, 'serves')
    s = served[0]
    name = 'asked.zip' if feed == 'asked' else 'f.zip'
    I.check([x[0] for x in loaded] == [name], 'the feed is loaded')
    I.check(s.schedule is loaded[0][1], 'and served')
    I.check(s.server_port == (99 if port else 8765), 'port')
    I.check(s.host == (host or 'maps.google.com'), 'host')
    I.check(s.feed_path == name and s.file_dir == 'dir', 'paths')
    I.check(s.handler is handler, 'handler')
    want = {'KEY': 'KEY', 'key.txt': 'from key.txt',
            'default': 'from std.txt'}
    if keyfile:
        I.check(s.key == want[keyfile], 'key')
    I.cover('served')
