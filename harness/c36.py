"""C36: KML coordinates are longitude first and round trip to stops."""
import hlib
BOUNDS = {'quick': {'points': 3, 'name': 2}, 'thorough': {'points': 4,
                                                          'name': 3}}
COVERS = {'h_stops': ['plain', 'hierarchy', 'with parent'],
          'h_line': ['flat', 'altitude', 'empty'],
          'h_shapes': ['line', 'points'],
          'h_trips': ['shown', 'hidden', 'filtered', 'raised'],
          'h_read': ['point', 'line', 'nothing'],
          'h_lines': ['same', 'renamed', 'other name']}
SECONDS = {'quick': 400}
ASSUMPTIONS = ['the XML library keeps element structure and text; elements '
               'are inspected as the program built them']


class Node(object):
    """A DOM node made of an element tree, as a reader would parse it."""
    TEXT_NODE = 3
    nodeType = 1

    def __init__(self, el):
        self.nodeName = el.tag
        self.childNodes = []
        if el.text:
            self.childNodes.append(Text(el.text))
        for k in el:
            self.childNodes.append(Node(k))
            if k.tail:
                self.childNodes.append(Text(k.tail))

    def getElementsByTagName(self, tag):
        out = []
        for k in self.childNodes:
            if k.nodeName == tag:
                out.append(k)
            out += k.getElementsByTagName(tag)
        return out


class Text(object):
    TEXT_NODE = 3
    nodeType = 3
    nodeName = '#text'
    childNodes = []

    def __init__(self, t):
        self.wholeText = t

    def getElementsByTagName(self, tag):
        return []


class Sink(object):
    def __init__(self):
        self.text = ''

    def write(self, t):
        self.text += t


def written(I, w, s):
    """The element tree the writer hands to the XML library."""
    kw = I.load('kmlwriter')
    roots = []

    class Tree(object):
        def __init__(self, root):
            roots.append(root)

        def write(self, f, encoding):
            f.write('*')
    I.patch(kw.ET, 'ElementTree', Tree)
    sink = Sink()
    kw.open = lambda name, mode: sink
    w.Write(s, 'out.kml')
    I.check(len(roots) == 1 and sink.text[-1:] == '*', 'written once')
    return roots[0]


def marks(root):
    """[(folder names, placemark element)] of every placemark."""
    out = []

    def walk(el, path):
        for k in el:
            if k.tag == 'Folder':
                walk(k, path + [k.find('name').text])
            elif k.tag == 'Placemark':
                out.append((path, k))
            else:
                walk(k, path)
    walk(root, [])
    return out


def coords(text):
    return [tuple([float(v) for v in p.split(',')]) for p in text.split()]


def pt(I, tag, lo=-90, hi=90):
    return I.real(tag, lo, hi, 4)


def h_stops(I):
    """Every stop is a point placemark and reads back as the same stop."""
    import kmlwriter
    import kmlparser
    import transitfeed
    s, r, acc = hlib.schedule()
    n = 2
    want = {}
    deep = I.flag('hierarchy')
    for i in range(n):
        lat, lon = pt(I, 'lat%d' % i), pt(I, 'lon%d' % i, -180, 180)
        name = I.str('name', 1, I.b['name'], "ab'") if i == 0 else 'second'
        st = s.AddStop(lat, lon, name, 'S%d' % i)
        if i == 0 and I.flag('desc'):
            st.stop_desc = 'desc'
        want['S%d' % i] = (lat, lon, name, st)
    parent = None
    if deep and I.flag('parent'):
        want['S1'][3].location_type = 1
        want['S0'][3].parent_station = 'S1'
        parent = True
        I.cover('with parent')
    w = kmlwriter.KMLWriter()
    w.show_stop_hierarchy = bool(deep)
    root = written(I, w, s)
    I.cover('hierarchy' if deep else 'plain')
    ms = marks(root)
    points = [(p, m) for p, m in ms if m.find('Point') is not None]
    I.check(len(points) == n, 'a point per stop')
    for k in want:
        lat, lon, name, st = want[k]
        mine = [m for p, m in points if m.find('description').text.startswith(
            'Stop id: %s' % k)]
        I.check(len(mine) == 1, 'its placemark')
        I.check(mine[0].find('name').text == name, 'its name')
        c = coords(mine[0].find('Point').find('coordinates').text)
        I.check(len(c) == 1 and len(c[0]) == 2, 'one pair')
        I.check(c[0][0] == lon, 'longitude first')
        I.check(c[0][1] == lat, 'latitude second')
    lines = [m for p, m in ms if m.find('LineString') is not None]
    I.check(len(lines) == (1 if parent else 0), 'a line per parent')
    if parent:
        c = coords(lines[0].find('LineString').find('coordinates').text)
        I.check(I.And(len(c) == 2, c[0][0] == want['S0'][1],
                      c[0][1] == want['S0'][0], c[1][0] == want['S1'][1],
                      c[1][1] == want['S1'][0]), 'stop to parent')
        return
    t = transitfeed.Schedule(memory_db=True, problem_reporter=r)
    kmlparser.KmlParser().ParseDom(Node(root), t)
    back = t.GetStopList()
    I.check(len(back) == n, 'as many stops read')
    for k in want:
        lat, lon, name, st = want[k]
        I.check(I.count([I.And(x.stop_name == name, x.stop_lat == lat,
                               x.stop_lon == lon) for x in back]) >= 1,
                'the stop reads back')


def h_line(I):
    import kmlwriter
    from kmlwriter import ET
    n = I.concrete(I.int('n', 0, I.b['points']))
    alt = I.flag('altitude')
    pts = []
    for i in range(n):
        p = (pt(I, 'lon%d' % i, -180, 180), pt(I, 'lat%d' % i, 2))
        if alt:
            p += (I.real('alt%d' % i, 0, 9000, 8),)
        pts.append(p)
    parent = ET.Element('Placemark')
    got = kmlwriter.KMLWriter()._CreateLineString(parent, pts)
    if not n:
        I.check(got is None and len(parent) == 0, 'no line of no points')
        I.cover('empty')
        return
    I.check(len(parent) == 1 and parent[0].tag == 'LineString', 'one line')
    c = coords(parent[0].find('coordinates').text)
    I.check(len(c) == n, 'every point')
    for p, q in zip(pts, c):
        I.check(len(q) == len(p), 'altitude iff given')
        for u, v in zip(p, q):
            I.check(u == v, 'same numbers in order')
    I.check((parent[0].find('altitudeMode') is not None) == bool(alt),
            'altitude mode')
    I.cover('altitude' if alt else 'flat')


def h_shapes(I):
    import kmlwriter
    import transitfeed as tf
    s, r, acc = hlib.schedule()
    shapes = {}
    for k in ('SH', 'SI'):
        x = tf.Shape(k)
        pts = []
        for i in range(2 if k == 'SI' else I.b['points']):
            p = (pt(I, 'lat%s%d' % (k, i), 2), pt(I, 'lon%s%d' % (k, i), -180,
                                               180))
            x.AddPoint(p[0], p[1], i)
            pts.append(p)
        s.AddShapeObject(x)
        shapes[k] = pts
    w = kmlwriter.KMLWriter()
    w.shape_points = bool(I.flag('points'))
    ms = marks(written(I, w, s))
    for k in shapes:
        mine = [m for p, m in ms if m.find('name').text == k and
                p == ['Shapes']]
        I.check(len(mine) == 1, 'a placemark per shape')
        c = coords(mine[0].find('LineString').find('coordinates').text)
        I.check(len(c) == len(shapes[k]), 'all points')
        for p, q in zip(shapes[k], c):
            I.check(I.And(q[0] == p[1], q[1] == p[0]), 'longitude first')
        inner = [m for p, m in ms if p[-1:] == [k + ' Shape Points']]
        I.check(len(inner) == (len(shapes[k]) if w.shape_points else 0),
                'point placemarks')
        for i, m in enumerate(inner):
            (q,) = coords(m.find('Point').find('coordinates').text)
            p = shapes[k][i]
            I.check(m.find('name').text == str(i + 1), 'numbered')
            I.check(I.And(q[0] == p[1], q[1] == p[0]), 'longitude first')
    I.cover('points' if w.shape_points else 'line')


def h_trips(I):
    """Trips, patterns and shapes of a route follow its stops in order."""
    import kmlwriter
    s, r, acc, route, sp, stops = hlib.basic(3)
    n = I.concrete(I.int('n', 1, 3))
    order = [I.concrete(I.int('s%d' % i, 0, 2)) for i in range(n)]
    t = route.AddTrip(s, 'head', sp, 'T1')
    secs = []
    for i, k in enumerate(order):
        u = None
        if i in (0, n - 1):
            u = 14400 + I.int('t%d' % i, i * 1000, i * 1000 + 900)
            secs.append(u)
        hlib.put(s, t, stops[k], i + 1, arrival_secs=u, departure_secs=u)
    w = kmlwriter.KMLWriter()
    w.show_trips = bool(I.flag('trips'))
    w.altitude_per_sec = I.choice('altitude', [0.0, 0.5])
    w.date_filter = I.choice('date', [None, '20100104', '20100103'])
    ms = marks(written(I, w, s))
    shown = w.show_trips and w.date_filter != '20100103'
    mine = [m for p, m in ms if p[-1] == 'Trips']
    I.check(len(mine) == (1 if shown else 0), 'shown when asked for')
    I.cover('shown' if shown else 'filtered' if w.show_trips else 'hidden')
    want = [(stops[k].stop_lon, stops[k].stop_lat) for k in order]
    if shown:
        I.check(mine[0].find('name').text == 'T1', 'its id')
        c = coords(mine[0].find('LineString').find('coordinates').text)
        I.check(len(c) == n, 'a point per stop')
        for i in range(n):
            I.check(c[i][:2] == want[i], 'stops in order')
            I.check(len(c[i]) == (3 if w.altitude_per_sec else 2), 'altitude')
            if w.altitude_per_sec and i in (0, n - 1):
                I.check(c[i][2] == (secs[0 if i == 0 else -1] - 14400) * 0.5,
                        'height of the time')
                I.cover('raised')
    pat = [m for p, m in ms if p[-1] == 'Patterns']
    I.check(len(pat) == 1, 'one pattern')
    I.check(coords(pat[0].find('LineString').find('coordinates').text) ==
            want, 'stops of the pattern')


class El(object):
    """Just enough of an element to build nodes of."""

    def __init__(self, tag, text='', *kids):
        self.tag, self.text, self.kids, self.tail = tag, text, kids, '\n'

    def __iter__(self):
        return iter(self.kids)


def h_read(I):
    """Placemarks of every shape of input."""
    import kmlparser
    s, r, acc = hlib.schedule()
    n = I.concrete(I.int('n', 0, I.b['points']))
    tag = I.choice('tag', ['Point', 'LineString', 'Polygon'])
    pts, words = [], []
    for i in range(n):
        p = (pt(I, 'lon%d' % i, -180, 180), pt(I, 'lat%d' % i, 2))
        pts.append(p)
        words.append('%f,%f' % p + (',0' if i == 0 and I.flag('alt')
                                    else ''))
    sep = I.choice('sep', [' ', '\n  '])
    name = I.str('name', 1, I.b['name'], 'ab(')
    kids = [El('name', name), El(tag, '\n', El('coordinates', sep + sep.join(
        words)))]
    if I.flag('swap'):
        kids.reverse()
    marks_ = [El('Placemark', '\n', *kids)]
    if I.flag('bare'):
        marks_.insert(0, El('Placemark', '', El('name', 'bare')))
    root = El('kml', '', El('Document', '', El('Folder', '', *marks_)))
    kmlparser.KmlParser().ParseDom(Node(root), s)
    got = s.GetStopList()
    point = tag != 'Polygon' and n == 1
    line = tag != 'Polygon' and n > 1
    I.check(len(got) == (1 if point else 0), 'a stop per point')
    I.check(len(s.GetShapeList()) == (1 if line else 0), 'a shape per line')
    if point:
        I.check(I.And(got[0].stop_lon == pts[0][0],
                      got[0].stop_lat == pts[0][1]), 'its place')
        I.check(got[0].stop_name == name, 'its name')
    if line:
        x = s.GetShapeList()[0]
        I.check(x.shape_id == name, 'its id')
        I.check(len(x.points) == n, 'all points')
        for p, q in zip(pts, x.points):
            I.check(I.And(q[0] == p[1], q[1] == p[0]), 'in order')
    I.cover('point' if point else 'line' if line else 'nothing')


def h_lines(I):
    """Lines of one name: the same points once, other points renamed."""
    import kmlparser
    s, r, acc = hlib.schedule()
    lines = []
    for k in range(2):
        name = 'L' if k == 0 else I.choice('name', ['L', 'M'])
        lines.append((name, [(I.real('lon%d%d' % (k, i), 0, 5, 1),
                              I.real('lat%d%d' % (k, i), 2, 7, 1))
                             for i in range(2)]))
    root = El('kml', '', *[
        El('Placemark', '', El('name', nm), El(
            'LineString', '', El('coordinates', ' '.join(
                ['%f,%f' % p for p in pts])))) for nm, pts in lines])
    kmlparser.KmlParser().ParseDom(Node(root), s)
    got = s.GetShapeList()
    same = lines[1][0] == 'L' and bool(I.And(*[
        p[j] == q[j] for p, q in zip(lines[0][1], lines[1][1])
        for j in (0, 1)]))
    I.check(len(got) == (1 if same else 2), 'no line lost or doubled')
    ids = [x.shape_id for x in got]
    I.check(len(set(ids)) == len(ids) and 'L' in ids, 'distinct ids')
    for nm, pts in lines:
        I.check(I.count([I.And(*[I.And(q[0] == p[1], q[1] == p[0])
                                 for p, q in zip(pts, x.points)])
                         for x in got if x.shape_id[:1] == nm]) >= 1,
                'its points')
    I.cover('other name' if lines[1][0] == 'M' else 'same' if same else
            'renamed')
