FEED_HELP = '''
import datetime, transitfeed
from transitfeed import problems
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
    def names(self):
        return [e.__class__.__name__ for e in self.seen]
acc = A()
rep = problems.ProblemReporter(acc)
s = transitfeed.Schedule(memory_db=True, problem_reporter=rep)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100401')
p.SetWeekdayService(True)
p.SetWeekendService(True)
r = s.AddRoute('1', 'One', 'Bus', 'R')
st = [s.AddStop(10 + i * .001, 20, 'x%d' % i, 'X%d' % i) for i in range(4)]
t = r.AddTrip(s, 'h', p, 'T')
'''

seed('c14-min', 'C14', 'transitfeed/schedule.py',
 "          if trip_interval_a[2] <= trip_interval_b[1]:\n            break\n",
 "          if trip_interval_a[2] <= trip_interval_b[2]:\n            if trip_interval_a[2] <= trip_interval_b[1] + 60:\n              break\n",
 FEED_HELP + '''
a, b = r.AddTrip(s, 'h', p, 'A1'), r.AddTrip(s, 'h', p, 'B1')
a.block_id = b.block_id = 'b'
a.AddStopTime(st[0], stop_time='08:00:00')
a.AddStopTime(st[1], stop_time='08:30:30')
b.AddStopTime(st[1], stop_time='08:30:00')
b.AddStopTime(st[2], stop_time='08:40:00')
s.ValidateTrips(rep)
assert acc.names().count('OverlappingTripsInSameBlock') == 1, acc.names()
''', 'an overlap of at most a minute', 'short overlaps are not reported')

seed('c28-case', 'C28', 'transitfeed/route.py',
 "    if self.route_short_name and self.route_long_name:\n      short_name = self.route_short_name.strip().lower()\n      long_name = self.route_long_name.strip().lower()\n      if (long_name",
 "    if self.route_short_name and self.route_long_name:\n      short_name = self.route_short_name.strip().lower()\n      long_name = self.route_long_name.lower()\n      if (long_name",
 FEED_HELP + '''
x = transitfeed.Route(short_name='M', long_name=' m-line', route_type=3,
                      route_id='Q')
x.agency_id = 'AG'
x.Validate(rep)
assert acc.names() == ['InvalidValue'], acc.names()
''', 'a long name starting with a blank and the short name',
 'the repeated short name goes unreported')

seed('c31-edge', 'C31', 'transitfeed/schedule.py',
 "          s.stop_lon <= east and s.stop_lon >= west):",
 "          s.stop_lon < east and s.stop_lon >= west):",
 FEED_HELP + '''
assert len(s.GetStopsInBoundingBox(11, 20, 9, 19, 9)) == 4
''', 'a stop exactly on the eastern edge of the box',
 'stops on the eastern edge are left out')

seed('c33-distance', 'C33', 'merge.py',
 "      migrated_shape.AddPoint(lat=lat, lon=lon, distance=dist)\n",
 "      migrated_shape.AddPoint(lat=lat, lon=lon,\n                              distance=dist and round(dist, 3))\n",
 '''
import merge, transitfeed
class Q(object):
    def _Report(self, e):
        pass
ss = []
for k in 'ab':
    s = transitfeed.Schedule(memory_db=True)
    s.AddAgency('A', 'http://a', 'UTC', 'AG')
    h = transitfeed.Shape('H')
    h.AddPoint(10, 20, 0.0)
    h.AddPoint(10.1, 20, 0.0005)
    s.AddShapeObject(h)
    ss.append(s)
m = transitfeed.Schedule(memory_db=True)
fm = merge.FeedMerger(ss[0], ss[1], m, merge.MergeProblemReporter(Q()))
fm.AddMerger(merge.ShapeMerger(fm))
fm.MergeSchedules()
assert m.GetShape('H').points[1][2] == 0.0005, m.GetShape('H').points
''', 'distances along a shape with more than three decimals',
 'merging changes the distances of shape points')

seed('c35-exception', 'C35', 'merge.py',
 "        if (k < start) or (k > end):\n",
 "        if (k < start) or (k >= end):\n",
 '''
import merge, transitfeed
ss = []
for k in 'ab':
    s = transitfeed.Schedule(memory_db=True)
    s.AddAgency('A', 'http://a', 'UTC', 'AG')
    p = s.NewDefaultServicePeriod()
    p.SetStartDate('20100101')
    p.SetEndDate('20101231')
    p.SetDateHasService('20100614')
    ss.append(s)
m = transitfeed.Schedule(memory_db=True)
fm = merge.FeedMerger(ss[0], ss[1], m, None)
sp = merge.ServicePeriodMerger(fm)
fm.AddMerger(sp)
sp.DisjoinCalendars('20100615')
assert ss[0].GetServicePeriodList()[0].IsActiveOn('20100614')
''', 'an exception on the day before the cutoff',
 'the exception of the last old day is lost')

seed('c40-equal', 'C40', 'schedule_viewer.py',
 "bisect.bisect_left(time_trips, (time, 0))",
 "bisect.bisect_left(time_trips, (time + 1, 0))",
 FEED_HELP + '''
import schedule_viewer as sv
class Box(object):
    pass
class H(sv.ScheduleRequestHandler):
    def __init__(self):
        self.server = Box()
        self.server.schedule = s
t.AddStopTime(st[0], stop_time='08:00:00')
t.AddStopTime(st[1], stop_time='08:30:00')
got = H().handle_json_GET_stoptrips({'stop': 'X0', 'time': '28800'})
assert len(got) == 1, got
''', 'a departure at exactly the asked time', 'it is left out')

seed('c42-equal', 'C42', 'unusual_trip_filter.py',
 "          trip.trip_type = ('0','1')[ratio < self._threshold]\n",
 "          trip.trip_type = ('0','1')[ratio <= self._threshold]\n",
 FEED_HELP + '''
import unusual_trip_filter as u
t.AddStopTime(st[0], stop_time='08:00:00')
t.AddStopTime(st[1], stop_time='08:30:00')
x = r.AddTrip(s, 'h', p, 'U')
x.AddStopTime(st[0], stop_time='08:00:00')
x.AddStopTime(st[2], stop_time='08:30:00')
u.UnusualTripFilter(0.5, force=True, quiet=True).filter(s)
assert x.trip_type == '0', x.trip_type
''', 'a pattern whose share is exactly the threshold, when forced',
 'a usual trip is marked unusual')

seed('c43-blank', 'C43', 'upgrade_translations.py',
 "            if value:\n                return value\n",
 "            if value is not None:\n                return value\n",
 '''
import os, shutil, tempfile
import upgrade_translations as u
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'agency.txt')
    o = open(f, 'wb')
    o.write('agency_id,agency_lang\\nA,\\nB,en\\n')
    o.close()
    got = u.read_first_available_value(f, 'agency_lang')
finally:
    shutil.rmtree(d)
assert got == 'en', got
''', 'a first agency without language followed by one with it',
 'the feed language is not found')

seed('c44-code', 'C44', 'visualize_pathways.py',
 "    if pathway.reversed_signposted_as:\n",
 "    if (pathway.reversed_signposted_as and\n            pathway.reversed_signposted_as != pathway.signposted_as):\n",
 '''
import visualize_pathways as v
class P(object):
    mode = v.PathwayMode.walkway
    signposted_as = 'Out'
    reversed_signposted_as = 'Out'
got = v.pathway_label(P())
assert got.count('Out') == 2, got
''', 'a pathway signposted alike in both directions',
 'one of the signs is missing from the graph')

seed('c49-sort', 'C49', 'transitfeed/schedule.py',
 "             ((sorted_stops[index].stop_lat - stop.stop_lat) < TWO_METERS_LAT)):",
 "             ((sorted_stops[index].stop_lat - stop.stop_lat) < TWO_METERS_LAT) and\n             (sorted_stops[index].stop_lat == stop.stop_lat or\n              index < sorted_stops.index(stop) + 3)):",
 FEED_HELP + '''
for i, (a, b) in enumerate([(1.0, 1.0), (1.000004, 5), (1.000005, 6),
                            (1.000006, 1.0)]):
    s.AddStop(30 + a, 40 + b, 'n%d' % i, 'N%d' % i)
s.ValidateNearbyStops(rep)
assert acc.names().count('StopsTooClose') == 1, acc.names()
''', 'two close stops with two distant ones of latitudes in between',
 'the close pair is not reported')

seed('c52-again', 'C52', 'transitfeed/schedule.py',
 "        key = (trip.service_id, stop_times[0].arrival_time, str(stop_ids))\n",
 "        key = (trip.service_id, stop_times[0].departure_time, str(stop_ids))\n",
 FEED_HELP + '''
s._check_duplicate_trips = True
for i, d in (('A1', '08:05:00'), ('B1', '08:06:00')):
    x = r.AddTrip(s, 'h', p, i)
    x.AddStopTime(st[0], arrival_time='08:00:00', departure_time=d)
    x.AddStopTime(st[1], stop_time='08:30:00')
s.ValidateTrips(rep)
assert acc.names().count('DuplicateTrip') == 1, acc.names()
''', 'two trips arriving together at their first stop and leaving apart',
 'the repeated trip is not reported')

seed('c15-untimed', 'C15', 'transitfeed/schedule.py',
 "      if st.arrival_secs is None or st.departure_secs is None:\n        consecutive_stop_times_with_potentially_same_time += 1\n        continue\n",
 "      if st.arrival_secs is None or st.departure_secs is None:\n        continue\n",
 FEED_HELP + '''
for i in range(7):
    if i in (2, 3):
        t.AddStopTime(st[i % 4])
    else:
        t.AddStopTime(st[i % 4], stop_time='08:00:00')
s.ValidateTrips(rep)
assert acc.names().count('TooManyConsecutiveStopTimesWithSameTime') == 1
''', 'untimed stops among stops of the same time',
 'seven stops at one time are not reported')

seed('c56-key', 'C56', 'transitfeed/route.py',
 "    for t in self._trips:\n      d.setdefault(t.pattern_id, []).append(t)\n    return d\n",
 "    for t in self._trips:\n      if not t.pattern_id in d or d[t.pattern_id][-1].trip_id != t.trip_id:\n        d.setdefault(t.pattern_id, []).append(t)\n        if len(d) > 1 and t.service_id != d[t.pattern_id][0].service_id:\n          d[t.pattern_id].pop()\n    return d\n",
 FEED_HELP + '''
q = s.NewDefaultServicePeriod()
q.SetStartDate('20100101')
q.SetEndDate('20100401')
q.SetWeekdayService(True)
for i, (k, sp) in enumerate([(1, p), (2, p), (2, q)]):
    x = r.AddTrip(s, 'h', sp, 'V%d' % i)
    x.AddStopTime(st[0], stop_time='08:00:00')
    x.AddStopTime(st[k], stop_time='08:30:00')
n = sum(len(v) for v in r.GetPatternIdTripDict().values())
assert n == 4, n
''', 'two patterns and a pattern served by two services',
 'a trip is missing from its pattern')

seed('c57-keep', 'C57', 'transitfeed/loader.py',
 "          period = service_period_class(service_id)\n          periods[period.service_id] = (period, context)\n",
 "          period = service_period_class(service_id)\n          if row[2] != u'2':\n            periods[period.service_id] = (period, context)\n",
 '''
import transitfeed
from transitfeed import problems
class Z(object):
    def __init__(self, f):
        self.f = f
    def namelist(self):
        return sorted(self.f)
    def read(self, n):
        return self.f[n]
    def close(self):
        pass
class A(object):
    def _Report(self, e):
        pass
f = {'calendar_dates.txt': 'service_id,date,exception_type\\nV,20100101,2\\n'}
l = transitfeed.Loader(problems=problems.ProblemReporter(A()), zip=Z(f))
l._path = 'x'
l._LoadCalendar()
assert [x.service_id for x in l._schedule.GetServicePeriodList()] == ['V']
''', 'a service known only from a removed day', 'the service is not defined')

seed('c59-busy', 'C59', 'kmlwriter.py',
 "      name = '%s (trips: %d)' % (shape_id, len(trips))\n",
 "      name = '%s (trips: %d)' % (shape_id, len(set(trip.trip_headsign\n                                 for trip in trips)) and len(trips[:9]))\n",
 FEED_HELP + '''
import kmlwriter
h = transitfeed.Shape('H')
h.AddPoint(10, 20)
h.AddPoint(10.1, 20)
s.AddShapeObject(h)
for i in range(12):
    r.AddTrip(s, 'h', p, 'V%d' % i).shape_id = 'H'
root = kmlwriter.ET.Element('k')
f = kmlwriter.KMLWriter()._CreateRouteShapesFolder(s, root, r)
assert f.find('Placemark').find('name').text == 'H (trips: 12)'
''', 'a shape used by ten or more trips', 'the number of its trips is wrong')

seed('c59-day', 'C59', 'kmlwriter.py',
 "      if (self.date_filter and\n          not trip.service_period.IsActiveOn(self.date_filter)):\n",
 "      if (self.date_filter and trip.service_period.start_date and\n          not trip.service_period.IsActiveOn(self.date_filter)):\n",
 FEED_HELP + '''
import kmlwriter
q = transitfeed.ServicePeriod('Q')
q.SetDateHasService('20100301')
s.AddServicePeriodObject(q)
x = r.AddTrip(s, 'h', q, 'V')
x.AddStopTime(st[0], stop_time='08:00:00')
x.AddStopTime(st[1], stop_time='08:10:00')
t.AddStopTime(st[0], stop_time='08:00:00')
t.AddStopTime(st[1], stop_time='08:10:00')
w = kmlwriter.KMLWriter()
w.date_filter = '20100302'
root = kmlwriter.ET.Element('k')
f = w._CreateRouteTripsFolder(root, r, schedule=s)
names = [k.find('name').text for k in f.findall('Placemark')]
assert names == ['T'], names
''', 'a trip of a service defined only by exceptions and a date filter',
 'a trip not running on the day is drawn')

seed('c38-first', 'C38', 'transitfeed/shapelib.py',
 "      max_radius = max(max_radius, dist)\n",
 "      max_radius = max(max_radius, dist) if i else dist / 2\n",
 '''
from transitfeed import shapelib
P = shapelib.Point.FromLatLng
a = shapelib.Poly([P(0, 0), P(0, 1)])
b = shapelib.Poly([P(.1, 0), P(0, 1)])
got = b.GreedyPolyMatchDist(a)
assert got > 11000, got
''', 'a shape farthest from the pattern at its first stop',
 'the distance of the match is halved')
seed('c38-cut', 'C38', 'transitfeed/shapelib.py',
 "    tmp = [closest]\n    tmp.extend(self._points[i+1:])\n",
 "    tmp = [closest]\n    if i + 2 == len(self._points) and closest == self._points[-1]:\n      i += 1\n    tmp.extend(self._points[i+1:])\n",
 '''
from transitfeed import shapelib
P = shapelib.Point
a = shapelib.Poly([P(1, 0, 0), P(0, 1, 0)])
x, y = a.CutAtClosestPoint(P(0, 1, 0))
assert len(x.GetPoints()) == 1, x.GetPoints()
assert len(y.GetPoints()) == 2, y.GetPoints()
''', 'a cut exactly at the last point of a polyline',
 'the first part keeps a point of the second')
seed('c47-wrap', 'C47', 'transitfeed/problems.py',
 "                         len(word.split('\\n', 1)[0]) >= width)],\n",
 "                         len(word.rstrip('.').split('\\n', 1)[0]) >= width)],\n",
 '''
from transitfeed import problems
w = problems.ProblemAccumulatorInterface
f = [getattr(problems, n) for n in dir(problems)
     if hasattr(getattr(problems, n), '_LineWrap')][0]
got = f._LineWrap('aaaa bbb.', 8)
assert got == 'aaaa\\nbbb.', got
''', 'a word ending in a full stop that just does not fit',
 'the line becomes too long')
