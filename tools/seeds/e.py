FEED_HELP = '''
import datetime, transitfeed
from transitfeed import problems
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
    def names(self):
        return [e.__class__.__name__ for e in self.seen]
acc = A()
rep = problems.ProblemReporter(acc)
s = transitfeed.Schedule(memory_db=True, problem_reporter=rep)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100401')
p.SetWeekdayService(True)
p.SetWeekendService(True)
r = s.AddRoute('1', 'One', 'Bus', 'R')
st = [s.AddStop(10 + i * .001, 20, 'x%d' % i, 'X%d' % i) for i in range(4)]
t = r.AddTrip(s, 'h', p, 'T')
'''

LOAD = '''
import StringIO, zipfile
import transitfeed
from transitfeed import problems
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
def load(changes):
    files = {
        'agency.txt': 'agency_id,agency_name,agency_url,agency_timezone\\n'
                      'AG,A,http://a,America/Los_Angeles\\n',
        'stops.txt': 'stop_id,stop_name,stop_lat,stop_lon\\n'
                     'X,x,10,20\\nY,y,10.01,20\\n',
        'routes.txt': 'route_id,agency_id,route_short_name,route_long_name,'
                      'route_type\\nR,AG,1,One,3\\n',
        'calendar.txt': 'service_id,monday,tuesday,wednesday,thursday,friday,'
                        'saturday,sunday,start_date,end_date\\n'
                        'S,1,1,1,1,1,1,1,20100101,20101231\\n',
        'trips.txt': 'route_id,service_id,trip_id\\nR,S,T\\n',
        'stop_times.txt': 'trip_id,arrival_time,departure_time,stop_id,'
                          'stop_sequence\\nT,08:00:00,08:00:00,X,1\\n'
                          'T,09:00:00,09:00:00,Y,2\\n'}
    files.update(changes)
    f = StringIO.StringIO()
    z = zipfile.ZipFile(f, 'w')
    for n in sorted(files):
        z.writestr(n, files[n])
    z.close()
    acc = A()
    rep = problems.ProblemReporter(acc)
    s = transitfeed.Loader(f, problems=rep, memory_db=True).Load()
    return s, rep, acc, files
'''

seed('e54-last', 'C54', 'transitfeed/loader.py',
 "                                    'This value wasn\\'t defined in trips.txt')\n        self._problems.ClearContext()\n        continue",
 "                                    'This value wasn\\'t defined in trips.txt')\n        continue",
 LOAD + '''
s, rep, acc, files = load({})
s, rep, acc, files = load({'stop_times.txt': files['stop_times.txt'] +
                           'Q,10:00:00,10:00:00,Y,3\\n'})
del acc.seen[:]
s.AddStop(50, 50, 'far', 'F')
import datetime
s.Validate(problems=rep, today=datetime.date(2010, 1, 1))
for e in acc.seen:
    if e.__class__.__name__ == 'UnusedStop':
        assert not hasattr(e, 'row_num') and not hasattr(e, 'file_name'), e
''', 'a last stop time row naming an unknown trip',
 'problems about the whole feed carry the line of that row')

seed('e57-type', 'C57', 'transitfeed/loader.py',
 "        elif exception_type == u'2':",
 "        elif exception_type[:1] == u'2':",
 LOAD + '''
s, rep, acc, files = load({'calendar_dates.txt':
    'service_id,date,exception_type\\nS,20100105,21\\n'})
assert [e.__class__.__name__ for e in acc.seen] == ['InvalidValue'], acc.seen
''', 'an exception type of several characters starting with 2',
 'it is taken as a removed day')

seed('e07-dates', 'C07', 'transitfeed/schedule.py',
 "      if period.HasExceptions():\n        return",
 "      if period.start_date and period.HasExceptions():\n        return",
 FEED_HELP + '''
q = transitfeed.ServicePeriod('Q')
q.SetDateHasService('20100105')
s.AddServicePeriodObject(q)
s.ValidateServiceExceptions(rep, datetime.date(2010, 1, 1),
                            datetime.date(2010, 12, 1))
assert acc.names() == [], acc.names()
''', 'a service made of exceptions only as the only one having any',
 'the feed is said to have no exceptions')

seed('e07-span', 'C07', 'transitfeed/schedule.py',
 "    if service_span < six_months:",
 "    if service_span <= six_months:",
 FEED_HELP + '''
s.ValidateServiceExceptions(rep, datetime.date(2010, 1, 1),
    datetime.date(2010, 1, 1) + datetime.timedelta(days=182))
assert acc.names() == ['NoServiceExceptions'], acc.names()
''', 'a feed of exactly 182 days', 'missing exceptions are not reported')

seed('e09-half', 'C09', 'transitfeed/trip.py',
 "        if depart_time % 60 != 0 or dist",
 "        if depart_time % 30 != 0 or dist",
 FEED_HELP + '''
t.AddStopTime(st[0], stop_time='08:00:30')
t.AddStopTime(st[1], stop_time='08:00:30')
t.Validate(rep)
t.ValidateChildren(rep)
assert 'TooFastTravel' in acc.names(), acc.names()
''', 'no time between stops at half a minute', 'it is not reported')

seed('e12-zero', 'C12', 'transitfeed/trip.py',
 "        if st.departure_secs != None:\n          departure_secs = st.departure_secs - first_secs + run_secs",
 "        if st.departure_secs:\n          departure_secs = st.departure_secs - first_secs + run_secs",
 FEED_HELP + '''
t.AddStopTime(st[0], arrival_secs=0, departure_secs=0)
t.AddStopTime(st[1], arrival_secs=60, departure_secs=60)
t.AddFrequency('08:00:00', '08:10:00', 300)
runs = t.GetFrequencyStopTimes()
assert runs[0][0].departure_secs == 8 * 3600, runs[0][0].departure_secs
''', 'a pattern starting at midnight', 'the first departure of a run is lost')

seed('e39-value', 'C39', 'schedule_viewer.py',
 "        k, v = k.split('=', 1)",
 "        k, v = k.split('=')[:2]",
 '''
import schedule_viewer
class H(schedule_viewer.ScheduleRequestHandler):
    def __init__(self):
        self.path = '/json/x?q=a=b'
    def handle_json_GET_x(self, params):
        pass
    def handle_json_wrapper_GET(self, h, params):
        self.got = params
h = H()
h.path = '/json/x;?q=a=b'
import urlparse
real = urlparse.urlparse
h.path = '/json/x?q=a=b'
h.do_GET()
assert h.got.get('q') == 'a=b', h.got
''', 'a parameter value holding an equals sign', 'the value is cut there')

seed('e44-deep', 'C44', 'visualize_pathways.py',
 "        for child_id in self.children:\n            if self._reader.get_location(\n                    child_id).self_or_children_have_pathways():",
 "        for child_id in self.children:\n            if self._reader.get_location(\n                    child_id).has_pathways():",
 '''
import os, shutil, tempfile
import visualize_pathways as v
d = tempfile.mkdtemp()
try:
    f = open(os.path.join(d, 'stops.txt'), 'wb')
    f.write('stop_id,stop_name,location_type,parent_station\\n'
            'ST,s,1,\\nPL,p,0,ST\\nBA,b,4,PL\\nBB,b,4,PL\\n')
    f.close()
    f = open(os.path.join(d, 'pathways.txt'), 'wb')
    f.write('pathway_id,from_stop_id,to_stop_id,pathway_mode,is_bidirectional\\n'
            'P,BA,BB,1,1\\n')
    f.close()
    r = v.GtfsReader(d)
    assert r.get_location('ST').self_or_children_have_pathways()
finally:
    shutil.rmtree(d)
''', 'a station whose only pathways lie between boarding areas',
 'the station is not drawn')

seed('e19-trip', 'C19', 'transitfeed/schedule.py',
 "    if rule.destination_id and rule.destination_id not in self.fare_zones:",
 "    if (rule.destination_id and rule.destination_id != rule.origin_id and\n        rule.destination_id not in self.fare_zones):",
 FEED_HELP + '''
s.AddFareAttributeObject(transitfeed.FareAttribute('F', '1.0', 'USD', 0, 0))
s.AddFareRuleObject(transitfeed.FareRule('F', None, 'z', 'z'), rep)
assert acc.names() == ['InvalidValue', 'InvalidValue'], acc.names()
''', 'a rule from an unknown zone to the same zone',
 'the unknown destination is not reported')

seed('e18-shape', 'C18', 'transitfeed/schedule.py',
 "      problem_reporter.DuplicateID('shape_id', shape.shape_id)\n      return\n",
 "      problem_reporter.DuplicateID('shape_id', shape.shape_id)\n      if self._shapes[shape.shape_id].points:\n        return\n",
 FEED_HELP + '''
a, b = transitfeed.Shape('S'), transitfeed.Shape('S')
b.AddPoint(1, 2, 0)
s.AddShapeObject(a, rep)
s.AddShapeObject(b, rep)
assert s.GetShape('S') is a
''', 'a first shape without points', 'the second one replaces it')
