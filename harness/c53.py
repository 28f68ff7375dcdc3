"""C53: files of a feed: missing, empty, unknown, unreadable, encodings."""
import hlib
BOUNDS = {'quick': {'name': 3, 'pre': 3}, 'thorough': {'name': 5, 'pre': 6}}
COVERS = {'h_presence': ['all there', 'missing', 'empty', 'optional absent'],
          'h_unknown': ['unknown', 'hidden'],
          'h_null': ['null', 'no null'],
          'h_mark': ['plain', 'utf-8', 'utf-16'],
          'h_encoding': ['good', 'bad'],
          'h_location': ['not found', 'bad zip', 'not a directory', 'zip',
                         'directory', 'zip directory', 'stream'],
          'h_directory': ['same']}
REQUIRED = ['agency.txt', 'stops.txt', 'routes.txt', 'trips.txt',
            'stop_times.txt']
OPTIONAL = ['fare_attributes.txt', 'fare_rules.txt', 'feed_info.txt',
            'frequencies.txt', 'shapes.txt', 'transfers.txt']
EXTRA = {
    'fare_attributes.txt': 'fare_id,price,currency_type,payment_method,'
                           'transfers\nF,1.5,USD,0,0\n',
    'fare_rules.txt': 'fare_id,route_id\nF,R1\n',
    'feed_info.txt': 'feed_publisher_name,feed_publisher_url,feed_lang\n'
                     'P,http://p.example,en\n',
    'frequencies.txt': 'trip_id,start_time,end_time,headway_secs\n'
                       'T1,08:00:00,09:00:00,600\n',
    'shapes.txt': 'shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence\n'
                  'SH,10.0,20.0,1\nSH,10.01,20.01,2\n',
    'transfers.txt': 'from_stop_id,to_stop_id,transfer_type\nS1,S2,0\n',
    'calendar_dates.txt': 'service_id,date,exception_type\n'
                          'SV,20100704,2\n'}


def full():
    files = hlib.feed({})
    files.update(EXTRA)
    return files


def named(acc, kind):
    return sorted([e.file_name for e in acc.of(kind)])


def h_presence(I):
    """Any two files missing or empty."""
    files = full()
    names = REQUIRED + OPTIONAL
    a = I.choice('a', names)
    b = I.choice('b', names + ['calendar.txt', 'calendar_dates.txt'])
    I.assume(a < b)
    # the whole calendar is its own case
    cal = I.choice('cal', ['both', 'calendar', 'dates', 'none'])
    how = {a: I.choice('how_a', ['there', 'missing', 'empty']),
           b: I.choice('how_b', ['missing', 'empty'])}
    if b.startswith('calendar'):
        I.assume(cal == 'both')
    if cal in ('calendar', 'none'):
        how['calendar_dates.txt'] = 'missing'
    if cal in ('dates', 'none'):
        how['calendar.txt'] = 'missing'
    for n in how:
        if how[n] == 'missing':
            del files[n]
        elif how[n] == 'empty':
            files[n] = ''
    # without a calendar only the exceptions say when a service runs
    stop_times = not (I.flag('no_times') and how.get('stop_times.txt') !=
                      'empty')
    s, r, acc = hlib.load_feed(files, load_stop_times=stop_times)
    missing = [n for n in how if how[n] == 'missing']
    want = [n for n in missing if n in REQUIRED]
    if not stop_times:
        want = [n for n in want if n != 'stop_times.txt']
    if cal == 'none':
        want.append('calendar.txt')
    I.log('missing', named(acc, 'MissingFile'))
    I.log('empty', named(acc, 'EmptyFile'))
    I.check(named(acc, 'MissingFile') == sorted(want), 'missing files')
    I.check(named(acc, 'EmptyFile') == sorted(
        [n for n in how if how[n] == 'empty']), 'empty files')
    I.check(not acc.of('UnknownFile', 'FileFormat', 'FeedNotFound',
                       'UnknownFormat'), 'other reports')
    I.check(all([e.IsError() for e in acc.of('MissingFile', 'EmptyFile')]),
            'severity')
    # what the readable files hold is there
    I.check(len(s.GetAgencyList()) == (0 if 'agency.txt' in how and
                                       how['agency.txt'] != 'there' else 1),
            'agencies')
    I.check(len(s.GetStopList()) == (0 if how.get('stops.txt', 'there') !=
                                     'there' else 2), 'stops')
    if want:
        I.cover('missing')
    if [n for n in missing if n in OPTIONAL]:
        I.cover('optional absent')
    if 'empty' in how.values():
        I.cover('empty')
    if not missing or cal == 'calendar':
        I.cover('all there')


def h_unknown(I):
    """Names GTFS does not define."""
    files = hlib.feed({})
    base = I.choice('base', ['', 'stops', 'agency.', 'Stops.tx', '.', 'x/'])
    name = base + I.str('name', 1, I.b['name'], 'ts.xT')
    for n in REQUIRED + OPTIONAL + ['calendar.txt', 'calendar_dates.txt']:
        I.assume(I.Not(name == n))
    files[name] = I.choice('content', ['', 'x'])
    s, r, acc = hlib.load_feed(files)
    got = acc.of('UnknownFile')
    hidden = name[0] == '.'
    I.check(I.Iff(hidden, not got), 'reported iff not hidden')
    I.check(len(got) == len(acc.problems) and len(got) <= 1, 'one report')
    for e in got:
        I.check(e.file_name == name and e.IsWarning(), 'the report')
    I.cover('unknown' if got else 'hidden')


def h_null(I):
    """A file holding a null is named with the place and not used."""
    which = I.choice('which', ['agency.txt', 'stops.txt', 'stop_times.txt',
                               'calendar.txt'])
    files = hlib.feed({})
    text = files[which]
    pre = I.str('pre', 0, I.b['pre'], 'ab')
    has = I.flag('has')
    at = I.choice('at', ['end', 'start', 'middle'])
    junk = pre + ('\0' if has else 'c') + 'd'
    if at == 'end':
        where = len(text) + len(pre)
        text = text + junk
    elif at == 'start':
        where = len(pre)
        text = junk + text
    else:
        where = 12 + len(pre)
        text = text[:12] + junk + text[12:]
    files[which] = text
    s, r, acc = hlib.load_feed(files)
    got = acc.of('FileFormat')
    I.check(len(got) == (1 if has else 0), 'reported iff it holds a null')
    for e in got:
        I.check(e.file_name == which, 'file')
        I.check(('at byte %d' % (where + 1)) in e.problem, 'place')
        I.check(e.IsError(), 'severity')
    if has:
        if which == 'agency.txt':
            I.check(not s.GetAgencyList(), 'used all the same')
        elif which == 'stops.txt':
            I.check(not s.GetStopList(), 'used all the same')
        elif which == 'calendar.txt':
            I.check(not s.GetServicePeriodList(), 'used all the same')
        else:
            I.check(s.GetTrip('T1').GetCountStopTimes() == 0,
                    'used all the same')
    I.cover('null' if has else 'no null')


def wide(text, mark):
    if mark == 'le':
        return '\xff\xfe' + ''.join([c + '\0' for c in text])
    return '\xfe\xff' + ''.join(['\0' + c for c in text])


def h_mark(I):
    """Byte order marks and UTF-16 do not lose data."""
    which = I.choice('which', ['agency.txt', 'stops.txt', 'calendar.txt',
                               'stop_times.txt', 'routes.txt'])
    mark = I.choice('mark', ['none', 'utf8', 'le', 'be'])
    files = hlib.feed({})
    if mark == 'utf8':
        files[which] = '\xef\xbb\xbf' + files[which]
    elif mark != 'none':
        files[which] = wide(files[which], mark)
    s, r, acc = hlib.load_feed(files)
    got = acc.of('FileFormat')
    I.check(len(got) == len(acc.problems), 'other reports')
    if mark in ('le', 'be'):
        I.check(len(got) == 1 and got[0].file_name == which and
                'utf-16' in got[0].problem and got[0].IsError(), 'report')
        I.cover('utf-16')
    else:
        I.check(not got, 'reported')
        I.cover('plain' if mark == 'none' else 'utf-8')
    I.check([a.agency_id for a in s.GetAgencyList()] == ['AG'], 'agency')
    I.check(sorted([x.stop_id for x in s.GetStopList()]) == ['S1', 'S2'],
            'stops')
    I.check(s.GetServicePeriod('SV').start_date == '20100101', 'calendar')
    I.check([st.stop_id for st in s.GetTrip('T1').GetStopTimes()] ==
            ['S1', 'S2'], 'stop times')
    I.check(s.GetRoute('R1').route_long_name == 'First', 'route')


def h_encoding(I):
    """Cells that are not UTF-8 are named, and only they."""
    cells = [I.choice('c%d' % k, ['plain', 'caf\xc3\xa9', 'caf\xe9',
                                  '\xc3', '\xe2\x82\xac', '\xe2\x82'])
             for k in range(3)]
    table = I.choice('table', ['dict', 'tuple'])
    if table == 'dict':
        files = hlib.feed({'stops.txt': [
            'stop_id,stop_name,stop_desc,stop_lat,stop_lon',
            'S1,N%s,D%s,10.0,20.0' % (cells[0], cells[1]),
            'S2,N%s,,10.01,20.01' % cells[2]]})
        where = [('stop_name', 2), ('stop_desc', 2), ('stop_name', 3)]
        name = 'stops.txt'
    else:
        files = hlib.feed({'stop_times.txt': [
            'trip_id,arrival_time,departure_time,stop_id,stop_sequence,'
            'stop_headsign',
            'T1,08:00:00,08:00:00,S1,1,H%s' % cells[0],
            'T1,08:10:00,08:10:00,S2,2,H%s' % cells[1]]})
        where = [('stop_headsign', 2), ('stop_headsign', 3), None]
        name = 'stop_times.txt'
    s, r, acc = hlib.load_feed(files)
    bad = [where[k] for k in range(3) if where[k] and
           cells[k] in ('caf\xe9', '\xc3', '\xe2\x82')]
    got = acc.of('InvalidValue')
    I.check(len(got) == len(acc.problems), 'other reports')
    I.check(sorted([(e.column_name, e.row_num) for e in got]) == sorted(bad),
            'cells')
    for e in got:
        I.check(e.file_name == name and e.IsError(), 'the report')
    if table == 'dict':
        if cells[0] == 'caf\xc3\xa9':
            I.check(len(s.GetStop('S1').stop_name) == 5 and
                    ord(s.GetStop('S1').stop_name[4]) == 0xe9, 'decoded')
        I.check(len(s.GetStopList()) == 2, 'stops lost')
    I.cover('bad' if bad else 'good')


class Disk(object):
    """Stands in for the modules os and zipfile in the loader."""

    def __init__(self, exists, isdir, files=None, folders=()):
        self.path = self
        self.folders = folders
        self._exists, self._isdir, self.files = exists, isdir, files or {}

    def exists(self, p):
        if p == 'feed' or p == 'feed.zip':
            return self._exists
        n = p.split('/')[-1]
        return n in self.files or n in self.folders

    def isdir(self, p):
        return self._isdir

    def isfile(self, p):
        return p.split('/')[-1] in self.files

    def join(self, a, b):
        return a + '/' + b

    def listdir(self, p):
        return sorted(list(self.files) + list(self.folders))

    def open(self, p, mode='r'):
        n = p.split('/')[-1]
        if n not in self.files:
            raise IOError(n)
        return Text(self.files[n])


class Text(object):
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class BadZipfile(Exception):
    pass


class Zips(object):
    def __init__(self, kind, files):
        self.kind, self.files = kind, files
        self.BadZipfile = BadZipfile

    def ZipFile(self, path, mode='r'):
        if self.kind == 'zip' or path == 'stream':
            return hlib.FakeZip(self.files)
        if self.kind == 'directory':
            raise IOError('is a directory')
        raise BadZipfile()


class Stream(object):
    def read(self):
        return ''


def h_location(I):
    """Where a feed may be."""
    from transitfeed import loader
    files = hlib.feed({})
    suffix = I.flag('zip_name')
    exists = I.flag('exists')
    kind = I.choice('kind', ['zip', 'directory', 'file', 'stream'])
    r, acc = hlib.reporter()
    disk = Disk(exists, kind == 'directory', files)
    zips = Zips(kind, files)
    I.patch(loader, 'os', disk)
    I.patch(loader, 'zipfile', zips)
    loader.open = disk.open
    path = 'feed.zip' if suffix else 'feed'
    if kind == 'stream':
        path = Stream()
        zips.kind = 'zip'
    s = loader.Loader(path, problems=r).Load()
    n = len(s.GetStopList())
    kinds = [k[0] for k in acc.kinds()]
    if kind == 'stream':
        want, stops, c = [], 2, 'stream'
    elif not exists:
        want, stops, c = ['FeedNotFound'], 0, 'not found'
    elif kind == 'file':
        want, stops = ['UnknownFormat'], 0
        c = 'bad zip' if suffix else 'not a directory'
    elif kind == 'zip':
        # a zip file is known by its name
        want, stops = ([], 2) if suffix else (['UnknownFormat'], 0)
        c = 'zip' if suffix else 'not a directory'
    else:
        want, stops = [], 2
        c = 'zip directory' if suffix else 'directory'
    I.check(kinds == want, 'reports')
    I.check(n == stops, 'what is loaded')
    for e in acc.problems:
        I.check(e.feed_name == path and e.IsError(), 'the report')
    I.cover(c)


def h_directory(I):
    """A directory and an archive of the same files load alike."""
    from transitfeed import loader
    files = full()
    for k in range(2):
        n = I.choice('drop%d' % k, REQUIRED + ['calendar.txt', 'shapes.txt'])
        how = I.choice('how%d' % k, ['keep', 'drop', 'empty', 'null'])
        if how == 'drop':
            files.pop(n, None)
        elif how == 'empty':
            files[n] = ''
        elif how == 'null' and n in files:
            files[n] = files[n] + '\0'
    if I.flag('more'):
        files['more.txt'] = 'x'
    # a folder is no file, whatever its name
    folders = [n for n in ('shapes.txt', 'calendar.txt')
               if n not in files and I.flag('folder ' + n)]
    s1, r1, acc1 = hlib.load_feed(files)
    r2, acc2 = hlib.reporter()
    disk = Disk(True, True, files, folders)
    I.patch(loader, 'os', disk)
    loader.open = disk.open
    s2 = loader.Loader('feed', problems=r2).Load()

    def view(s, acc):
        return (sorted([a.agency_id for a in s.GetAgencyList()]),
                sorted([a.stop_id for a in s.GetStopList()]),
                sorted([a.route_id for a in s.GetRouteList()]),
                sorted([(a.trip_id, a.GetCountStopTimes())
                        for a in s.GetTripList()]),
                sorted([a.shape_id for a in s.GetShapeList()]),
                sorted([a.service_id for a in s.GetServicePeriodList()]),
                acc.kinds())
    I.check(view(s1, acc1) == view(s2, acc2), 'loads differ')
    I.cover('same')
