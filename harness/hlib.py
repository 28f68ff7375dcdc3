"""Helpers shared by the harnesses (run in both modes)."""


class Collector(object):
    """Problem accumulator keeping every reported problem."""

    def __init__(self):
        self.problems = []

    def _Report(self, e):
        self.problems.append(e)

    def clear(self):
        self.problems = []

    def of(self, *names):
        return [e for e in self.problems if e.__class__.__name__ in names]

    def n(self, *names):
        return len(self.of(*names))

    def on(self, column):
        """Problems naming a column."""
        return [e for e in self.problems
                if getattr(e, 'column_name', None) == column]

    def kinds(self):
        return sorted([(e.__class__.__name__,
                        str(getattr(e, 'column_name', '')),
                        e.GetType()) for e in self.problems])


def reporter():
    from transitfeed import problems
    acc = Collector()
    r = problems.ProblemReporter(acc)
    return r, acc


def schedule(**kw):
    """A Schedule with an in-memory database and a collecting reporter."""
    import transitfeed
    r, acc = reporter()
    s = transitfeed.Schedule(problem_reporter=r, memory_db=True, **kw)
    return s, r, acc


def basic(n_stops=1, route_type=3, **kw):
    """Schedule with an agency, a route, a service and n stops at distinct
    whole-degree places: (s, r, acc, route, service, stops)."""
    s, r, acc = schedule(**kw)
    s.AddAgency('A', 'http://a.example', 'America/Los_Angeles', 'AG')
    route = s.AddRoute('1', 'One', 'Bus', 'R')
    route.route_type = route_type
    sp = s.NewDefaultServicePeriod()
    sp.SetStartDate('20100101')
    sp.SetEndDate('20101231')
    sp.SetWeekdayService(True)
    stops = [s.AddStop(10.0 + i, 20.0 + i, 'stop%d' % i, 'ST%d' % i)
             for i in range(n_stops)]
    return s, r, acc, route, sp, stops


def put(s, trip, stop, seq, **kw):
    """Store a stop time as the loader does; returns its own reports."""
    from transitfeed import stoptime
    r2, acc2 = reporter()
    st = stoptime.StopTime(r2, stop, stop_sequence=seq, **kw)
    trip._AddStopTimeObjectUnordered(st, s)
    return acc2


def distances(I, table, default=None):
    """Replace util.ApproximateDistance: table maps unordered pairs of whole
    latitudes to metres."""
    util = I.load('transitfeed.util')

    def fake(lat1, lng1, lat2, lng2):
        a, b = int(lat1), int(lat2)
        if a == b:
            return 0.0
        if (a, b) in table:
            return table[a, b]
        if (b, a) in table:
            return table[b, a]
        return default
    I.patch(util, 'ApproximateDistance', fake)


class FakeZip(object):
    """In-memory feed given to the loader in place of a zip file."""

    def __init__(self, files):
        self.files = files

    def namelist(self):
        return sorted(self.files)

    def read(self, name):
        return self.files[name]

    def close(self):
        pass


FEED = {
    'agency.txt': ['agency_id,agency_name,agency_url,agency_timezone',
                   'AG,Ag,http://a.example,America/Los_Angeles'],
    'stops.txt': ['stop_id,stop_name,stop_lat,stop_lon',
                  'S1,One,10.0,20.0', 'S2,Two,10.01,20.01'],
    'routes.txt': ['route_id,agency_id,route_short_name,route_long_name,'
                   'route_type', 'R1,AG,1,First,3'],
    'trips.txt': ['route_id,service_id,trip_id', 'R1,SV,T1'],
    'stop_times.txt': ['trip_id,arrival_time,departure_time,stop_id,'
                       'stop_sequence', 'T1,08:00:00,08:00:00,S1,1',
                       'T1,08:10:00,08:10:00,S2,2'],
    'calendar.txt': ['service_id,monday,tuesday,wednesday,thursday,friday,'
                     'saturday,sunday,start_date,end_date',
                     'SV,1,1,1,1,1,0,0,20100101,20101231'],
}


def feed(changes):
    """Texts of a small clean feed with some tables replaced (a list of
    rows), extended (('+', rows)) or removed (None)."""
    out = dict(FEED)
    for k in changes:
        v = changes[k]
        if v is None:
            out.pop(k, None)
        elif isinstance(v, tuple):
            out[k] = out[k] + v[1]
        else:
            out[k] = v
    return dict((k, '\n'.join(out[k]) + '\n') for k in out)


def load_feed(files, **kw):
    """Schedule loaded by the real loader: (schedule, accumulator)."""
    from transitfeed import loader
    r, acc = reporter()
    s = loader.Loader(problems=r, zip=FakeZip(files), **kw).Load()
    return s, r, acc
