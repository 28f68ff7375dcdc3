"""C64: the shape importer gives each stop pattern its best shape."""
import hlib
BOUNDS = {'quick': {'matches': 3, 'features': 2},
          'thorough': {'matches': 4, 'features': 3}}
COVERS = {'h_match': ['match', 'too far', 'none'],
          'h_read': ['keys', 'numbered'],
          'h_extra': ['archive', 'directory', 'none'],
          'h_assign': ['whole', 'path', 'no match', 'too short', 'taken'],
          'h_tool': ['columns', 'wrong arguments', 'imported']}
ASSUMPTIONS = ['the shape file library, which is not part of the repository, '
               'is a stand-in returning the features given to it']


class Feature(object):
    """A feature of a shape file: fields by name, points (lat, lon)."""

    def __init__(self, fields, points):
        self.fields = fields
        self.points = points

    def GetFieldCount(self):
        return len(self.fields)

    def GetFieldDefnRef(self, i):
        f = Feature([], [])
        f.GetName = lambda: self.fields[i][0]
        return f

    def GetFieldAsString(self, i):
        return str(self.fields[i][1])

    def GetField(self, name):
        for k, v in self.fields:
            if k == name:
                return v
        raise ValueError('no field %s' % name)

    def GetGeometryRef(self):
        return self

    def GetPointCount(self):
        return len(self.points)

    def GetX(self, i):
        return self.points[i][1]

    def GetY(self, i):
        return self.points[i][0]


class Layer(object):
    def __init__(self, features):
        self.features = features

    def __len__(self):
        return len(self.features)

    def GetFeature(self, i):
        return self.features[i]

    def GetLayer(self, n):
        assert n == 0
        return self


def shapefiles(I, files):
    import ogr
    I.patch(ogr, 'Open', lambda name: Layer(files[name]))


def h_match(I):
    """The closest candidate within the distance, or none."""
    si = I.load('shape_importer')

    class Candidate(object):
        def __init__(self, d):
            self.d = d

        def GetNumPoints(self):
            return 2

    class Pattern(object):
        def GreedyPolyMatchDist(self, other):
            return other.d

    class Trip(object):
        trip_id = 'T'
    n = I.choice('n', range(I.b['matches'] + 1))
    cs = [Candidate(I.real('d%d' % i, 0, 1000, 16)) for i in range(n)]
    limit = I.int('limit', 0, 1000)
    got = si.GetMatchingShape(Pattern(), Trip(), cs, limit,
                              verbosity=I.choice('verbosity', [0, 1]))
    if got is None:
        I.check(I.all([c.d > limit for c in cs]), 'no candidate is near')
        I.cover('too far' if n else 'none')
    else:
        I.check(any([got is c for c in cs]), 'one of the candidates')
        I.check(got.d <= limit, 'within the distance')
        I.check(I.all([got.d <= c.d for c in cs]), 'the closest')
        I.cover('match')


def near(a, b):
    return len(a) == len(b) and all(
        [abs(x[0] - y[0]) < 1e-9 and abs(x[1] - y[1]) < 1e-9
         for x, y in zip(a, b)])


def places(poly):
    return [p.ToLatLng() for p in poly.GetPoints()]


LINES = [[(10.0, 20.0), (10.0, 20.01)], [(-5.5, 179.5)],
         [(0.0, 0.25), (45.0, -120.125), (60.0, 30.0)]]


def h_read(I):
    """Every feature becomes a polyline of its points."""
    si = I.load('shape_importer')
    n = I.choice('features', range(I.b['features'] + 1))
    fs = []
    for i in range(n):
        pts = I.choice('points%d' % i, LINES)
        fs.append(Feature([('NAME', 'Line%d' % i), ('DIR', i),
                           ('X', I.choice('x%d' % i, ['a', None, 1.5]))],
                          pts))
    shapefiles(I, {'s.shp': fs})
    added = []

    class Graph(object):
        def AddPoly(self, poly):
            added.append(poly)
    keys = I.choice('keys', [None, ['NAME'], ['DIR', 'NAME'], ['X', 'DIR']])
    g = Graph()
    I.check(si.AddShapefile('s.shp', g, keys) is g, 'the same graph')
    I.check(len(added) == n, 'one polyline per feature')
    for i, (f, p) in enumerate(zip(fs, added)):
        I.check(near(places(p), f.points), 'points')
        if keys:
            name = '-'.join([str(f.GetField(k)) for k in keys])
            I.cover('keys')
        else:
            name = 's.shp-%d' % i
            I.cover('numbered')
        I.check(p.GetName() == name, 'name')


class Disk(object):
    """Feeds by base name, in place of os and zipfile in the loader."""

    class BadZipfile(Exception):
        pass

    def __init__(self, zips, dirs=None):
        self.path = self
        self.zips = zips
        self.dirs = dirs or {}

    def exists(self, p):
        d = p.rpartition('/')[0]
        return p in self.zips or p in self.dirs or \
            p[len(d) + 1:] in self.dirs.get(d, {})

    def isdir(self, p):
        return p in self.dirs

    def isfile(self, p):
        return self.exists(p) and p not in self.dirs

    def join(self, a, b):
        return a + '/' + b

    def listdir(self, p):
        return sorted(self.dirs[p])

    def open(self, p, mode='r'):
        d, _, f = p.rpartition('/')
        if f not in self.dirs.get(d, {}):
            raise IOError(p)

        class File(object):
            def read(self):
                return text
        text = self.dirs[d][f]
        return File()

    def ZipFile(self, path, mode='r'):
        if path not in self.zips:
            raise IOError(path)
        return hlib.FakeZip(self.zips[path])


def world(I, zips, dirs=None):
    from transitfeed import loader
    disk = Disk(zips, dirs)
    I.patch(loader, 'os', disk)
    I.patch(loader, 'zipfile', disk)
    loader.open = disk.open
    return disk


SHAPES = ['shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence',
          'A,10.0,20.0,1', 'A,10.0,20.01,2', 'B,11.0,21.0,5',
          'B,11.5,21.0,2']


def h_extra(I):
    """Extra shapes; the loader of shapes alone."""
    import transitfeed
    si = I.load('shape_importer')
    kind = I.choice('kind', ['archive', 'directory', 'none', 'added'])
    files = hlib.feed({'shapes.txt': SHAPES})
    if kind == 'added':
        made = []

        class Temp(object):
            def mkdtemp(self):
                made.append('tmp')
                return 'tmp'

            def copy(self, a, b):
                I.check(b == 'tmp/shapes.txt', 'copied')
                disk.dirs['tmp'] = {'shapes.txt': {
                    'extra.txt': files['shapes.txt']}[a]}

            def rmtree(self, d):
                made.remove(d)
                del disk.dirs[d]
        t = Temp()
        I.patch(si, 'tempfile', t)
        I.patch(si, 'shutil', t)
        I.patch(si, 'os', Disk({}))
        disk = world(I, {}, {})
        added = []

        class Graph(object):
            def AddPoly(self, poly):
                added.append(poly)
        si.AddExtraShapes('extra.txt', Graph())
        I.check(not made and not disk.dirs, 'nothing left behind')
        got = dict((p.GetName(), places(p)) for p in added)
        I.check(len(added) == 2 and sorted(got) == ['A', 'B'], 'each shape')
        I.check(near(got['A'], [(10.0, 20.0), (10.0, 20.01)]), 'A')
        I.check(near(got['B'], [(11.5, 21.0), (11.0, 21.0)]), 'B')
        return
    world(I, {'f.zip': files}, {'f': files})
    name = {'archive': 'f.zip', 'directory': 'f', 'none': 'no'}[kind]
    r, acc = hlib.reporter()
    s = transitfeed.ShapeLoader(name, problems=r, memory_db=True).Load()
    I.log('problems', acc.kinds())
    got = sorted([x.shape_id for x in s.GetShapeList()])
    I.check(got == ([] if kind == 'none' else ['A', 'B']), 'shapes')
    I.check(not s.GetStopList() and not s.GetRouteList(), 'only shapes')
    I.cover(kind)


# places a few hundred metres apart, going east
PLACE = dict(('S%d' % i, (10.0, 20.0 + i * .01)) for i in range(1, 5))
PATTERNS = [('S1', 'S2'), ('S1', 'S2', 'S3'), ('S3', 'S1'), ('S4',), ()]


def line(ids, off=0.0):
    return [(PLACE[x][0] + off, PLACE[x][1]) for x in ids]


def source(patterns, shapes):
    """A feed with a trip per pattern, route R1 or R2."""
    trips = ['route_id,service_id,trip_id,shape_id']
    times = ['trip_id,arrival_time,departure_time,stop_id,stop_sequence']
    for i, (route, pattern) in enumerate(patterns):
        trips.append('%s,SV,T%d,%s' % (route, i, shapes[i]))
        for j, x in enumerate(pattern):
            times.append('T%d,08:%02d:00,08:%02d:00,%s,%d' % (
                i, 10 * j, 10 * j, x, j + 1))
    return hlib.feed({
        'stops.txt': ['stop_id,stop_name,stop_lat,stop_lon'] +
        ['%s,Stop %s,%r,%r' % (k, k, v[0], v[1])
         for k, v in sorted(PLACE.items())],
        'routes.txt': [hlib.FEED['routes.txt'][0], 'R1,AG,1,First,3',
                       'R2,AG,2,Second,3'],
        'trips.txt': trips, 'stop_times.txt': times,
        'shapes.txt': ['shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence',
                       'shape_1,10.0,20.0,1', 'shape_1,10.0,20.04,2']})


def run(I, argv):
    """Run the tool; its status and the feeds written."""
    import sys
    import transitfeed
    written = []

    def write(self, name):
        written.append((name, self))
    I.patch(transitfeed.Schedule, 'WriteGoogleTransitFeed', write)
    old = sys.argv
    sys.argv = ['tool'] + argv
    code = None
    try:
        I.script('shape_importer')
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = old
    return code, written


def h_assign(I):
    """Trips get the shape of their stop pattern."""
    import datetime
    I.set_today(datetime.date(2010, 6, 1))
    n = I.choice('trips', [1, 2])
    pats = []
    for i in range(n):
        pats.append((I.choice('route%d' % i, ['R1', 'R2']) if i else 'R1',
                     I.choice('pattern%d' % i, PATTERNS)))
    taken = I.flag('taken')
    shapes = ['' for p in pats] + ['shape_1' if taken else '']
    pats.append(('R2', ('S4', 'S3')))
    world(I, {'in.zip': source(pats, shapes)})
    lines = {}
    if I.flag('line'):
        # 111 m off the stops
        lines['12'] = line(('S1', 'S2'), .001)
    if I.flag('better'):
        lines['12b'] = line(('S1', 'S2'), .0001)
    if I.flag('segments'):
        lines['2'] = line(('S1', 'S2'))
        lines['3'] = line(('S2', 'S3'))
    shapefiles(I, {'s.shp': [Feature([], lines[k]) for k in sorted(lines)]})
    far = I.choice('distance', [None, 50])
    argv = ['--source_gtfs', 'in.zip', '--dest_gtfs', 'out.zip', 's.shp']
    if far:
        argv += ['--max_distance', str(far)]
    code, written = run(I, argv)
    I.check(not code and len(written) == 1, 'written once')
    I.check(written[0][0] == 'out.zip', 'where it was asked')
    s = written[0][1]
    want = {}
    for i, (route, p) in enumerate(pats):
        w = None
        if p == ('S1', 'S2'):
            for k in ('2', '12b', '12'):
                if k in lines and (k != '12' or far is None):
                    w = lines[k]
                    I.cover('whole')
                    break
        elif p == ('S1', 'S2', 'S3') and '2' in lines:
            w = line(p)
            I.cover('path')
        elif p == ('S3', 'S1') and '2' in lines:
            # lines are joined in either direction
            w = line(('S3', 'S2', 'S1'))
            I.cover('path')
        want[i] = w
        if w is None:
            I.cover('no match' if len(p) > 1 else 'too short')
    used = {}
    for i, (route, p) in enumerate(pats):
        t = s.GetTrip('T%d' % i)
        I.log('shape %d' % i, bool(t.shape_id))
        if want[i] is None:
            I.check((t.shape_id or '') == shapes[i], 'keeps what it had')
            continue
        shape = s.GetShape(t.shape_id)
        I.check(near([x[:2] for x in shape.points], want[i]),
                'the shape of its pattern')
        same = used.setdefault((route, p), t.shape_id)
        I.check(same == t.shape_id, 'shared by the pattern')
    ids = sorted(used.values())
    I.check(len(set(ids)) == len(ids), 'a shape per pattern')
    I.check(sorted(x.shape_id for x in s.GetShapeList()) ==
            sorted(['shape_1'] + ids), 'no other shape')
    I.check(near([x[:2] for x in s.GetShape('shape_1').points],
                 [(10.0, 20.0), (10.0, 20.04)]), 'the old shape is kept')
    if taken:
        I.cover('taken')


def h_tool(I):
    """Options."""
    import datetime
    import transitfeed
    from transitfeed import shapelib
    I.set_today(datetime.date(2010, 6, 1))
    world(I, {'in.zip': source([('R1', ('S1', 'S2'))], [''])})
    names = []
    real = shapelib.PolyGraph.AddPoly

    def add(self, poly, *a, **k):
        names.append(poly.GetName())
        return real(self, poly, *a, **k)
    I.patch(shapelib.PolyGraph, 'AddPoly', add)
    shapefiles(I, {'a.shp': [Feature([('N', 'x'), ('M', 3)],
                                     line(('S1', 'S2')))],
                   'b.shp': [Feature([('N', 'y'), ('M', 4)],
                                     line(('S2', 'S3')))]})
    argv = []
    src = I.flag('source')
    if src:
        argv += ['--source_gtfs', 'in.zip']
    dest = I.flag('dest')
    if dest:
        argv += ['--dest_gtfs', 'out.zip']
    keys = I.choice('keys', [None, 'N', 'M,N'])
    if keys:
        argv += ['--keycols', keys]
    columns = I.flag('columns')
    if columns:
        argv.append('--print_columns')
    if I.flag('verbose'):
        argv += ['--verbosity', '3']
    files = I.choice('files', [[], ['a.shp'], ['a.shp', 'b.shp']])
    code, written = run(I, argv + files)
    if not (src and dest and files):
        I.check(code == 2 and not written and not names, 'refused')
        I.cover('wrong arguments')
    elif columns:
        I.check(not code and not written and not names, 'only prints')
        I.cover('columns')
    else:
        I.check(not code and len(written) == 1, 'imported')
        want = {None: ['a.shp-0', 'b.shp-0'], 'N': ['x', 'y'],
                'M,N': ['3-x', '4-y']}[keys]
        I.check(names == want[:len(files)], 'names')
        I.check(written[0][1].GetTrip('T0').shape_id, 'a shape')
        I.cover('imported')
