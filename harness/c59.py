"""C59: the map file lists everything once, in its folder, under its name."""
import hlib
from c36 import written
BOUNDS = {'quick': {'routes': 2, 'trips': 3, 'name': 1},
          'thorough': {'routes': 3, 'trips': 4, 'name': 2}}
COVERS = {'h_stops': ['station', 'platform', 'entrance', 'alone', 'flat'],
          'h_routes': ['split', 'together', 'unknown type', 'colour',
                       'no name', 'described'],
          'h_trips': ['several patterns', 'one pattern', 'shapes',
                      'no shapes', 'no trips', 'headsign', 'filtered'],
          'h_indent': ['leaf', 'nested', 'text kept']}
SECONDS = {'quick': 400}
ASSUMPTIONS = ['the XML library keeps element structure and text; elements '
               'are inspected as the program built them']


def text(el, tag):
    k = el.find(tag)
    return None if k is None else k.text


def items(el, tag):
    return [k for k in el if k.tag == tag]


def folder(el, name):
    """The one folder of that name right below el, or None."""
    got = [k for k in items(el, 'Folder') if text(k, 'name') == name]
    return got[0] if len(got) == 1 else None


def names(el, tag='Placemark'):
    return [text(k, 'name') for k in items(el, tag)]


def doc_of(root):
    return items(root, 'Document')[0]


def h_stops(I):
    """Each stop lies in the folder of its kind, in the order of names."""
    import kmlwriter
    s, r, acc = hlib.schedule()
    deep = I.flag('hierarchy')
    a = s.AddStop(10.0, 20.0, 'nameA', 'A')
    b = s.AddStop(11.0, 21.0, 'nameB', 'B')
    c = s.AddStop(12.0, 22.0, 'nameC', 'C')
    c.location_type = 1
    a.location_type = I.choice('type', [0, 1, 2])
    a.parent_station = I.choice('parent', [None, 'C', 'gone'])
    if I.flag('renamed'):
        a.stop_name = 'zz'
    d, u = I.flag('desc'), I.flag('url')
    if d:
        a.stop_desc = 'text'
    if u:
        a.stop_url = 'http://s.example'
    w = kmlwriter.KMLWriter()
    w.show_stop_hierarchy = bool(deep)
    doc = doc_of(written(I, w, s))
    top = folder(doc, 'Stops')
    I.check(top is not None, 'the stops folder')
    kind = 'Stations' if a.location_type == 1 else \
        'Entrances' if a.location_type == 2 else \
        'Platforms' if a.parent_station else 'Stand-Alone'
    style = {'Stations': '#stop_station', 'Entrances': '#stop_entrance',
             'Platforms': '#stop_platform',
             'Stand-Alone': '#stop_standalone'}
    order = sorted([a, b, c], key=lambda x: x.stop_name)
    want = {'Stations': ['nameC'], 'Stand-Alone': ['nameB']}
    want.setdefault(kind, []).append(a.stop_name)
    if deep:
        I.check(not names(top), 'all in a folder of their kind')
        for k in ('Stations', 'Platforms', 'Entrances', 'Stand-Alone'):
            f = folder(top, k)
            I.check(names(f) == [x.stop_name for x in order
                                 if x.stop_name in want.get(k, [])], k)
            for p in items(f, 'Placemark'):
                I.check(text(p, 'styleUrl') == style[k], 'style of its kind')
        link = a.parent_station == 'C' and a.location_type != 1
        for k in ('Platforms', 'Entrances'):
            I.check(names(folder(folder(top, k), 'Connections')) ==
                    ([a.stop_name] if link and kind == k else []),
                    'connection to the parent')
        mine = [p for p in items(folder(top, kind), 'Placemark')
                if text(p, 'name') == a.stop_name]
        I.cover({'Stations': 'station', 'Entrances': 'entrance',
                 'Platforms': 'platform', 'Stand-Alone': 'alone'}[kind])
    else:
        I.check(names(top) == [x.stop_name for x in order], 'all stops')
        I.check(not items(top, 'Folder'), 'no folders of kinds')
        mine = [p for p in items(top, 'Placemark')
                if text(p, 'name') == a.stop_name]
        I.cover('flat')
    I.check(len(mine) == 1, 'once')
    lines = ['Stop id: A']
    if d:
        lines.append('text')
    if u:
        lines.append('Stop info page: <a href="http://s.example">'
                     'http://s.example</a>')
    I.check(text(mine[0], 'description') == '<br/>'.join(lines),
            'description')


TYPES = {0: 'Tram, Streetcar or Light rail', 1: 'Subway or Metro', 2: 'Rail',
         3: 'Bus', 4: 'Ferry', 5: 'Cable car',
         6: 'Gondola or suspended cable car', 7: 'Funicular'}


def h_routes(I):
    """A folder per route, grouped by type when asked for."""
    import kmlwriter
    import transitfeed
    s, r, acc = hlib.schedule()
    s.AddAgency('A', 'http://a.example', 'America/Los_Angeles', 'AG')
    n = I.choice('routes', range(I.b['routes'] + 1))
    routes, want = [], {}
    for i in range(n):
        rt = transitfeed.Route(short_name='', long_name='Long%d' % i,
                               route_type=3, route_id='R%d' % i,
                               agency_id='AG')
        rt.route_type = I.choice('type%d' % i, list(range(8)) + [100]
                                 if i == 0 else [3, 7])
        if i == 0:
            rt.route_short_name = I.str('short', 0, I.b['name'], 'KZ')
            rt.route_long_name = I.choice('long', ['', 'Long0'])
            rt.route_color = I.choice('colour', ['', 'AB12F0'])
            rt.route_desc = I.choice('desc', ['', 'text'])
            rt.route_url = I.choice('url', ['', 'http://r.example'])
        s.AddRouteObject(rt)
        routes.append(rt)
        short = rt.route_short_name
        name = '<b>' + short + '</b>' if short else ''
        if rt.route_long_name:
            name = name + ' - ' + rt.route_long_name if short else \
                rt.route_long_name
        want[rt.route_id] = name if name else rt.route_id
        if not name:
            I.cover('no name')
    w = kmlwriter.KMLWriter()
    w.split_routes = bool(I.flag('split'))
    doc = doc_of(written(I, w, s))
    tops = [k for k in items(doc, 'Folder')
            if text(k, 'name').startswith('Routes')]
    if not w.split_routes:
        groups = [('Routes', routes)] if routes else []
        I.cover('together')
    else:
        groups = []
        for t in sorted(set([x.route_type for x in routes])):
            groups.append(('Routes - %s' % TYPES.get(t, str(t)),
                           [x for x in routes if x.route_type == t]))
            if t not in TYPES:
                I.cover('unknown type')
        I.cover('split')
    I.check([text(k, 'name') for k in tops] == [g for g, _ in groups],
            'a folder per group')
    for f, (g, rs) in zip(tops, groups):
        I.check(names(f, 'Folder') == sorted([want[x.route_id] for x in rs]),
                'its routes by name')
        I.check(text(f, 'visibility') == '0', 'hidden at first')
        for k in items(f, 'Folder'):
            if routes and routes[0] in rs and \
               text(k, 'name') == want['R0']:
                x = routes[0]
                ds = [x.route_desc] if x.route_desc else []
                if x.route_url:
                    ds.append('Route info page: <a href="http://r.example">'
                              'http://r.example</a>')
                I.check(text(k, 'description') == ('<br/>'.join(ds) or None),
                        'description')
                if ds:
                    I.cover('described')
    styles = items(doc, 'Style')
    I.check(sorted([k.attrib['id'] for k in styles]) ==
            sorted(['route_' + x.route_id for x in routes]),
            'a style per route')
    for k in styles:
        for x in routes:
            if k.attrib['id'] == 'route_' + x.route_id:
                line = k.find('LineStyle')
                I.check(text(line, 'width') == {0: '3', 1: '3', 2: '5'}.get(
                    x.route_type, '1'), 'width')
                I.check(text(line, 'color') == ('fff012ab' if x.route_color
                                                else None), 'colour')
                if x.route_color:
                    I.cover('colour')


def h_trips(I):
    """Patterns, shapes and trips of a route."""
    import kmlwriter
    import transitfeed
    s, r, acc, route, sp, stops = hlib.basic(3)
    sq = transitfeed.ServicePeriod('WE')
    sq.SetStartDate('20100101')
    sq.SetEndDate('20101231')
    sq.SetWeekendService(True)
    s.AddServicePeriodObject(sq)
    for k in ('SH', 'SI'):
        x = transitfeed.Shape(k)
        x.AddPoint(10.0, 20.0, 0)
        x.AddPoint(12.0, 22.0, 1)
        s.AddShapeObject(x)
    sx = transitfeed.ServicePeriod('XD')
    sx.SetDateHasService('20100105')
    s.AddServicePeriodObject(sx)
    n = I.choice('trips', list(range(I.b['trips'] + 1)) + [12])
    pat, shp, days = {}, {}, {}
    head = None
    for i in range(n):
        k = 'T%02d' % (n - i)
        days[k] = {1: 'WE', 2: 'XD'}.get(i, sp.service_id)
        t = transitfeed.Trip()
        t.trip_id, t.route_id, t.service_id = k, route.route_id, days[k]
        if i == 0 and I.flag('headsign'):
            t.trip_headsign = 'to town'
            head = k
        p = I.choice('pattern%d' % i, [(0, 1), (0, 2)]) if i < 4 else (0, 1)
        h = I.choice('shape%d' % i, ['', 'SH', 'SI'] if i < 2 else ['SH'])
        if h:
            t.shape_id = h
            shp.setdefault(h, []).append(k)
        s.AddTripObject(t)
        pat.setdefault(p, []).append(k)
        for j, q in enumerate(p):
            hlib.put(s, t, stops[q], j + 1, arrival_secs=100 + j * 9000,
                     departure_secs=100 + j * 9000)
    w = kmlwriter.KMLWriter()
    w.show_trips = bool(I.flag('trips shown'))
    w.date_filter = I.choice('date', [None, '20100104'])
    doc = doc_of(written(I, w, s))
    f = folder(folder(doc, 'Routes'), '<b>1</b> - One')
    I.check(f is not None, 'the route')

    def listed(title, groups, named):
        g = folder(f, title)
        I.check((g is None) == (not groups), title)
        if not groups:
            return
        ps = items(g, 'Placemark')
        I.check(len(ps) == len(groups), 'one each')
        sizes = []
        for p in ps:
            d = text(p, 'description')
            ids = d.split(': ')[1].split(', ')
            I.check(sorted(ids) in [sorted(groups[k]) for k in groups],
                    'its trips')
            I.check('(%d in total)' % len(ids) in d, 'how many')
            sizes.append(len(ids))
            nm = text(p, 'name')
            if named:
                I.check(sorted(ids) == sorted(groups[nm.split(' ')[0]]),
                        'under its id')
            else:
                I.check(nm.startswith('Pattern %d ' % len(sizes)),
                        'numbered')
            I.check(nm.endswith('(trips: %d)' % len(ids)), 'trips counted')
            I.check(text(p, 'styleUrl') == '#route_R', 'style of the route')
            line = p.find('LineString')
            I.check(line is not None, 'a line')
            pts = [tuple([float(v) for v in c.split(',')][:2])
                   for c in line.find('coordinates').text.split()]
            if named:
                I.check(pts == [(20.0, 10.0), (22.0, 12.0)], 'the shape')
            else:
                one = [k for k in groups if sorted(groups[k]) == sorted(ids)]
                I.check(pts == [(stops[q].stop_lon, stops[q].stop_lat)
                                for q in one[0]], 'the stops')
        I.check(sizes == sorted(sizes, reverse=True), 'busiest first')
    listed('Patterns', pat, False)
    listed('Shapes', shp, True)
    I.cover('no trips' if not n else 'several patterns' if len(pat) > 1 else
            'one pattern')
    I.cover('shapes' if shp else 'no shapes')
    g = folder(f, 'Trips')
    I.check((g is not None) == (w.show_trips and n > 0), 'trips if asked')
    if g is not None:
        want = [k for k in sorted(days) if not w.date_filter or
                days[k] == sp.service_id]
        I.check(names(g) == want, 'trips of the day in order of ids')
        if len(want) < n:
            I.cover('filtered')
        for p in items(g, 'Placemark'):
            d = 'Headsign: to town' if text(p, 'name') == head else None
            I.check(text(p, 'description') == d, 'headsign')
            I.check(p.find('LineString') is not None, 'the line of a trip')
            if d:
                I.cover('headsign')
    top = folder(doc, 'Shapes')
    I.check(names(top) == ['SH', 'SI'], 'every shape by id')


def h_indent(I):
    """Indenting adds white space between elements and changes no text."""
    import kmlwriter
    from kmlwriter import ET
    made = []

    def build(el, depth, tag):
        t = I.choice('text' + tag, [None, 'word', ' '] if depth < 2
                     else [None, 'word'])
        el.text = t
        made.append((el, t))
        if depth < 2:
            for i in range(I.choice('kids' + tag, [0, 1, 2] if depth == 0
                                    else [0, 1])):
                build(ET.SubElement(el, 'k'), depth + 1, tag + str(i))
    root = ET.Element('root')
    build(root, 0, 'r')
    shape = [len(el) for el, _ in made]
    kmlwriter.KMLWriter()._SetIndentation(root)
    I.check([len(el) for el, _ in made] == shape, 'same elements')
    for el, t in made:
        if t == 'word':
            I.check(el.text == 'word', 'text kept')
            I.cover('text kept')
        else:
            I.check(el.text is None or el.text.strip() == '',
                    'only white space')
        I.check(el.tail is None or el.tail.strip() == '', 'white space after')
        if len(el):
            I.cover('nested')
            if t != 'word':
                I.check(el.text is not None and el.text[:1] == '\n',
                        'children on their own lines')
        else:
            I.check(el.text == t, 'a leaf keeps its text')
            I.cover('leaf')
