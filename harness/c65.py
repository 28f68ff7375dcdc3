"""C65: a feed that loads without errors works in every tool."""
import hlib
import c22
import c33
import c36
import c40
from c60 import TABLES, SPECIAL, SHORT, place, put, text
BOUNDS = {'quick': {'len': 1, 'chars': '0 1-.:a'},
          'thorough': {'len': 2, 'chars': '012 -.:a'}}
COVERS = {'h_map': ['refused', 'drawn'], 'h_view': ['refused', 'shown'],
          'h_merge': ['refused', 'merged'], 'h_save': ['refused', 'saved'],
          'h_filter': ['refused', 'filtered']}
SECONDS = {'quick': 600, 'thorough': 3000}
ASSUMPTIONS = ['one cell of one reference feed is odd at a time']
ASCII = [c for c in SPECIAL if max([ord(x) for x in c] or [0]) < 128]


def loaded(I, cells=SPECIAL, **kw):
    """A feed with one odd cell, or None when loading reports an error."""
    import datetime
    I.set_today(datetime.date(2010, 6, 1))
    t, row, c = place(I)
    number = TABLES[t][0].split(',')[c].endswith(
        ('_lat', '_lon', '_traveled'))
    if not number and I.flag('any'):
        cell = I.str('text', 0, I.b['len'], I.b['chars'])
    else:
        cell = I.choice('cell', SHORT + cells if number else cells)
    files = put(t, row, c, cell)
    s, r, acc = hlib.load_feed(files, **kw)
    if [e for e in acc.problems if e.GetType() == 0]:
        I.cover('refused')
        return None, files
    return s, files


def h_map(I):
    """The map writer takes it, whatever it is asked to show."""
    s, files = loaded(I)
    if s is None:
        return
    kw = I.load('kmlwriter')
    for k in range(2):
        w = kw.KMLWriter()
        if k:
            w.show_trips = w.altitude_per_sec = 1
            w.show_stop_hierarchy = w.split_routes = w.shape_points = True
            w.date_filter = '20100705'
        root = c36.written(I, w, s)
        I.check(root.tag == 'kml', 'a map')
    I.cover('drawn')


class Out(object):
    def __init__(self):
        self.text = ''

    def write(self, t):
        self.text += t


def h_view(I):
    """Every page of the viewer has an answer for every record."""
    s, files = loaded(I)
    if s is None:
        return
    h = c40.viewer(I, s)
    heads = []
    h.send_response = lambda code, message=None: heads.append(code)
    h.send_header = lambda k, v: heads.append((k, v))
    h.end_headers = lambda: heads.append('end')
    h.server.key, h.server.host = 'KEY', 'HOST'

    class Page(object):
        def read(self):
            return '[agency][min_lat][max_lon]'
    h.OpenFile = lambda name: (Page(), 'text/html')

    def ask(name, **params):
        h.wfile = Out()
        del heads[:]
        f = getattr(h, 'handle_json_GET_' + name)
        h.handle_json_wrapper_GET(f, params)
        body = h.wfile.text
        I.check(heads[0] == 200 and heads[-1] == 'end' and
                ('Content-Length', str(len(body))) in heads, 'one answer')
    ask('routes')
    ask('stopsearch', q='s')
    ask('neareststops', lat='10.0', lon='20.0', limit='5')
    ask('boundboxstops', n='11', e='21', s='9', w='19', limit='5')
    for r in s.GetRouteList():
        ask('routerow', route=r.route_id)
        ask('routepatterns', route=r.route_id, time='30000')
        ask('routepatterns', route=r.route_id, date='20100705')
    for t in s.GetTripList():
        for page in ('triprows', 'tripstoptimes', 'tripshape'):
            ask(page, trip=t.trip_id)
    for x in s.GetStopList():
        ask('stoptrips', stop=x.stop_id, time='0')
        ask('stoptrips', stop=x.stop_id, time='40000', date='20100705')
    h.wfile = Out()
    h.handle_GET_home()
    I.check('[' not in h.wfile.text, 'the home page is filled in')
    for t in s.GetTripList():
        if t.GetTimeStops():
            h.wfile = Out()
            h.handle_GET_ttablegraph({'trip': t.trip_id})
            I.check('<svg' in h.wfile.text, 'a graph')
    I.check(h.errors == [], 'no page is missing')
    I.cover('shown')


KINDS = ['GetAgencyList', 'GetStopList', 'GetRouteList', 'GetTripList',
         'GetShapeList', 'GetFareAttributeList', 'GetServicePeriodList',
         'GetTransferList']


def h_merge(I):
    """It merges with the same feed of the next year."""
    s, files = loaded(I, extra_validation=True)
    if s is None:
        return
    later = dict(files)
    for t in ('calendar.txt', 'calendar_dates.txt', 'feed_info.txt'):
        later[t] = files[t].replace('2010', '2011')
    s2 = hlib.load_feed(later)[0]
    fm, m, acc = c33.merger(I, s, s2)
    I.check(fm.MergeSchedules() == True, 'merges')
    for k in KINDS:
        n = len(getattr(s, k)())
        I.check(n <= len(getattr(m, k)()) <= 2 * n, k)
    I.cover('merged')


def h_filter(I):
    """Its unusual trips can be marked."""
    s, files = loaded(I)
    if s is None:
        return
    f = I.load('unusual_trip_filter')
    for force in (False, True):
        f.UnusualTripFilter(0.7, force=force, quiet=False).filter(s)
        for t in s.GetTripList():
            I.check(str(t.trip_type) in ('0', '1', '', 'None'), 'a trip type')
    I.cover('filtered')


def h_save(I):
    """What is saved loads again without errors, with every record."""
    s, files = loaded(I, ASCII)
    if s is None:
        return
    s2, acc = c22.again(s)
    for k in KINDS:
        I.check(len(getattr(s, k)()) == len(getattr(s2, k)()), k)
    bad = [e for e in acc.problems if e.GetType() == 0]
    I.check(bad == [], 'no errors')
    I.cover('saved')
