FEED_HELP = '''
import datetime, transitfeed
from transitfeed import problems
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
    def names(self):
        return [e.__class__.__name__ for e in self.seen]
acc = A()
rep = problems.ProblemReporter(acc)
s = transitfeed.Schedule(memory_db=True, problem_reporter=rep)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100401')
p.SetWeekdayService(True)
p.SetWeekendService(True)
r = s.AddRoute('1', 'One', 'Bus', 'R')
st = [s.AddStop(10 + i * .001, 20, 'x%d' % i, 'X%d' % i) for i in range(4)]
t = r.AddTrip(s, 'h', p, 'T')
'''

seed('c22-zero', 'C22', 'transitfeed/stoptime.py',
 "        value = getattr(self, fn)\n        if value is None:\n          value = ''\n        result.append(value)\n    return tuple(result)\n\n  def GetSqlValuesTuple",
 "        value = getattr(self, fn)\n        if value is None or (fn == 'shape_dist_traveled' and not value):\n          value = ''\n        result.append(value)\n    return tuple(result)\n\n  def GetSqlValuesTuple",
 FEED_HELP + '''
t.AddStopTime(st[0], stop_time='08:00:00', shape_dist_traveled=0)
row = list(t.GetStopTimes())[0].GetFieldValuesTuple('T')
i = transitfeed.StopTime._FIELD_NAMES.index('shape_dist_traveled')
assert row[i] == 0 and row[i] != '', row
''', 'a stop time at distance zero', 'the distance is written as blank')

seed('c29-first', 'C29', 'feedvalidator.py',
 "    if e.__class__.__name__ in self._ignore_types:\n      return\n    self._type_to",
 "    if [n for n in self._ignore_types if e.__class__.__name__.startswith(n)]:\n      return\n    self._type_to",
 '''
import feedvalidator
from transitfeed import problems
class Big(problems.InvalidValue):
    pass
Big.__name__ = 'InvalidValueHere'
acc = feedvalidator.CountingConsoleProblemAccumulator(set(['InvalidValue'])) \\
    if 0 else feedvalidator.LimitPerTypeProblemAccumulator(
        3, set(['Invalid']))
acc._Report(problems.InvalidValue(column_name='a', value='b',
                                  type=problems.TYPE_ERROR))
assert acc.ErrorCount() == 1
''', 'an ignored kind whose name begins the name of another kind',
 'problems of the other kind are dropped as well')

seed('c32-zone', 'C32', 'merge.py',
 "                    'zone_id': schedule.GetStopList(),\n",
 "                    'zone_id': [stop for stop in schedule.GetStopList()\n                                if not stop.parent_station],\n",
 '''
import merge, transitfeed
def feed(zone):
    s = transitfeed.Schedule(memory_db=True)
    s.AddStopObject(transitfeed.Stop(field_dict=dict(
        stop_id='P', stop_name='p', stop_lat='1', stop_lon='1',
        location_type='1')))
    s.AddStopObject(transitfeed.Stop(field_dict=dict(
        stop_id='C', stop_name='c', stop_lat='1', stop_lon='1',
        parent_station='P', zone_id=zone)))
    return s
m = merge.FeedMerger(feed('z'), feed('z_merged_9'), None, None)
seen = [m.GenerateId('z') for i in range(12)]
assert 'z_merged_9' not in seen, seen
''', 'a numbered zone used only by stops inside a station',
 'a generated zone id equals one in use')

seed('c34-block', 'C34', 'merge.py',
 "    if original_trip.block_id:\n      migrated_trip.block_id = '%s_%s' % (",
 "    if original_trip.block_id and original_trip.block_id[:2] not in ('a_', 'b_'):\n      migrated_trip.block_id = '%s_%s' % (",
 '''
import merge, transitfeed
class R(merge.MergeProblemReporter):
    pass
def feed(pre):
    s = transitfeed.Schedule(memory_db=True)
    s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
    p = transitfeed.ServicePeriod(pre + 'S')
    p.SetStartDate('20100101' if pre == 'x' else '20110101')
    p.SetEndDate('20100401' if pre == 'x' else '20110401')
    p.SetWeekdayService(True)
    s.AddServicePeriodObject(p)
    r = s.AddRoute('1', 'One', 'Bus', pre + 'R')
    a = s.AddStop(10, 20, 'x', pre + 'X')
    b = s.AddStop(10, 21, 'y', pre + 'Y')
    t = transitfeed.Trip(field_dict=dict(
        trip_id=pre + 'T', route_id=pre + 'R', service_id=pre + 'S',
        block_id='a_1'))
    s.AddTripObject(t)
    t.AddStopTime(a, stop_time='08:00:00', schedule=s)
    t.AddStopTime(b, stop_time='09:00:00', schedule=s)
    return s
acc = merge.HTMLProblemAccumulator()
m = merge.FeedMerger(feed('x'), feed('y'),
                     transitfeed.Schedule(memory_db=True),
                     merge.MergeProblemReporter(acc))
m.AddDefaultMergers()
m.MergeSchedules()
blocks = [t.block_id for t in m.merged_schedule.GetTripList()]
assert len(set(blocks)) == 2, blocks
''', 'block ids of both feeds that came from an earlier merge',
 'blocks of different feeds become one')

seed('c36-altitude', 'C36', 'kmlwriter.py',
 "    if len(coordinate_list[0]) == 3:\n      coordinate_str_list = ['%f,%f,%f' % t for t in coordinate_list]",
 "    if len(coordinate_list[0]) == 3 and coordinate_list[0][2]:\n      coordinate_str_list = ['%f,%f,%f' % t for t in coordinate_list]",
 '''
import kmlwriter
try:
    import xml.etree.ElementTree as ET
except ImportError:
    import elementtree.ElementTree as ET
w = kmlwriter.KMLWriter()
try:
    e = w._CreateLineString(ET.Element('x'), [(1, 2, 0), (3, 4, 0)])
    text = e.find('coordinates').text
except TypeError:
    text = None
assert text == '1.000000,2.000000,0.000000 3.000000,4.000000,0.000000', text
''', 'a line starting at altitude zero', 'writing the line crashes')

seed('c53-null', 'C53', 'transitfeed/loader.py',
 "          (codecs.getencoder('string_escape')(m.group()), null_index + 1),\n          (file_name, ))\n      return\n",
 "          (codecs.getencoder('string_escape')(m.group()), null_index + 1),\n          (file_name, ))\n      if null_index < contents.find('\\n'):\n        return\n      contents = contents.replace('\\0', '')\n",
 '''
import StringIO, zipfile
import transitfeed
from transitfeed import problems
class A(object):
    def _Report(self, e):
        pass
f = StringIO.StringIO()
z = zipfile.ZipFile(f, 'w')
z.writestr('agency.txt', 'agency_id,agency_name,agency_url,agency_timezone\\n'
           'A,B\\0,http://a,America/Los_Angeles\\n')
z.close()
s = transitfeed.Loader(f, problems=problems.ProblemReporter(A()),
                       memory_db=True).Load()
assert not s.GetAgencyList()
''', 'a null byte after the first line', 'the file is used although it holds a null byte')

seed('c55-max', 'C55', 'transitfeed/trip.py',
 "        max_shape_dist = shape.max_distance\n        st = stoptimes[-1]\n        if (st.shape_dist_traveled and\n            st.shape_dist_traveled > max_shape_dist):",
 "        max_shape_dist = shape.max_distance\n        st = stoptimes[-1]\n        if (st.shape_dist_traveled and max_shape_dist and\n            st.shape_dist_traveled > max_shape_dist):",
 FEED_HELP + '''
sh = transitfeed.Shape('S')
sh.AddPoint(10, 20, 0)
s.AddShapeObject(sh)
t.shape_id = 'S'
t.AddStopTime(st[0], stop_time='08:00:00', shape_dist_traveled=0)
t.AddStopTime(st[1], stop_time='09:00:00', shape_dist_traveled=5)
t.ValidateShapeDistTraveledSmallerThanMaxShapeDistance(rep, t.GetStopTimes())
assert acc.names() == ['OtherProblem'], acc.names()
''', 'a shape whose distances are all zero',
 'a distance beyond the end of the shape is not reported')

seed('c58-mark', 'C58', 'feedvalidator.py',
 "        if header == column_name:\n          attributes = ' class=\"problem\"'",
 "        if header == column_name and value:\n          attributes = ' class=\"problem\"'",
 '''
import feedvalidator, transitfeed
from transitfeed import problems
acc = feedvalidator.HTMLCountingProblemAccumulator(9)
e = problems.MissingValue(column_name='b', type=problems.TYPE_ERROR,
                          context=('a.txt', 2, ['1', ''], ['a', 'b']))
out = []
acc.FormatException(e, out)
assert '<td class="problem"></td>' in ''.join(out), out
''', 'a problem with a blank cell', 'the offending cell is not marked')

seed('c60-short', 'C60', 'transitfeed/loader.py',
 "        except IndexError:\n          break\n",
 "        except IndexError:\n          if i > 1:\n            break\n          raise\n",
 '''
import StringIO, zipfile
import transitfeed
from transitfeed import problems
class A(object):
    def _Report(self, e):
        pass
f = StringIO.StringIO()
z = zipfile.ZipFile(f, 'w')
z.writestr('agency.txt', 'agency_id,agency_name,agency_url,agency_timezone\\n'
           'A\\n')
z.close()
s = transitfeed.Loader(f, problems=problems.ProblemReporter(A()),
                       memory_db=True).Load()
''', 'a row with a single cell', 'loading crashes on it')

seed('c61-parent', 'C61', 'extensions/googletransit/stop.py',
 "      elif not util.IsEmpty(self.parent_station):\n        problems.InvalidValue('vehicle_type'",
 "      elif self.vehicle_type and not util.IsEmpty(self.parent_station):\n        problems.InvalidValue('vehicle_type'",
 '''
import transitfeed
import extensions.googletransit as g
from transitfeed import problems
class A(object):
    seen = []
    def _Report(self, e):
        self.seen.append(e)
st = g.Stop(field_dict=dict(stop_id='a', stop_name='b', stop_lat='1',
    stop_lon='1', parent_station='p', vehicle_type='0', location_type='0'))
st._gtfs_factory = g.GetGtfsFactory()
st.ValidateVehicleType(problems.ProblemReporter(A()))
assert len(A.seen) == 1, A.seen
''', 'vehicle type 0 (tram) at a stop inside a station',
 'the ignored vehicle type is not reported')

seed('c62-header', 'C62', 'feedvalidator.py',
 "        table_header += '<th%s>%s</th>' % (\n            attributes, transitfeed.EscapeHtml(header))",
 "        table_header += '<th%s>%s</th>' % (\n            attributes, header if header == column_name else\n            transitfeed.EscapeHtml(header))",
 '''
import feedvalidator
from transitfeed import problems
acc = feedvalidator.HTMLCountingProblemAccumulator(9)
e = problems.InvalidValue(column_name='<b>', value='x', reason='',
                          type=problems.TYPE_ERROR,
                          context=('a.txt', 2, ['1', 'x'], ['a', '<b>']))
out = []
acc.FormatException(e, out)
assert '<b>' not in ''.join(out), out
''', 'markup in the header of the column reported', 'it becomes part of the page')

seed('c65-split', 'C65', 'kmlwriter.py',
 "      type_name = route_type_names.get(route_type, str(route_type))",
 "      type_name = route_type_names[route_type]",
 FEED_HELP + """
import os, shutil, tempfile, kmlwriter
x = transitfeed.Route(field_dict=dict(route_id='Q', route_short_name='q',
    route_type='9', agency_id='AG'))
s.AddRouteObject(x)
d = tempfile.mkdtemp()
try:
    w = kmlwriter.KMLWriter()
    w.split_routes = True
    w.Write(s, os.path.join(d, 'x.kml'))
finally:
    shutil.rmtree(d)
""", 'a feed split by route types having an unknown type, a mere warning',
 'drawing the map crashes')

seed('c64-used', 'C64', 'shape_importer.py',
 "  if scores[0][0] > max_distance:\n",
 "  if scores[0][0] >= max_distance - 1 and len(scores) > 1:\n",
 """
import sys, types
sys.modules['ogr'] = types.ModuleType('ogr')
import shape_importer
from transitfeed import shapelib
P = shapelib.Point.FromLatLng
class T(object):
    trip_id = 't'
pat = shapelib.Poly([P(0, 0), P(0, 1)])
a = shapelib.Poly([P(0, 0), P(0, 1)], 'a')
b = shapelib.Poly([P(0.1, 0), P(0.1, 1)], 'b')
assert shape_importer.GetMatchingShape(pat, T, [a, b], 0) is a
""", 'two candidates, the best within a metre of the limit',
 'a line within the maximum distance is not used')

seed('c63-dot', 'C63', 'kmlwriter.py',
 "      feed_name = feed_name.rsplit('.', 1)[0]  # strip extension",
 "      feed_name = feed_name.split('.', 1)[0]  # strip extension",
 """
import os, shutil, sys, tempfile
import transitfeed, kmlwriter
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'a.b.zip')
    shutil.copy(os.path.join(sys.argv[1], 'tests', 'data', 'good_feed.zip'), f)
    sys.argv = ['kmlwriter.py', f]
    kmlwriter.main()
    assert sorted(os.listdir(d)) == ['a.b.kml', 'a.b.zip'], os.listdir(d)
finally:
    shutil.rmtree(d)
""", 'a feed whose name has two dots and no output name',
 'the map is written under another name')

seed('c41-sum', 'C41', 'gtfsscheduleviewer/marey_graph.py',
 "int(pd + sum(pixel_dist[0:i])) for i,pd in",
 "int(pd) + int(sum(pixel_dist[0:i])) for i,pd in",
 """
from gtfsscheduleviewer import marey_graph
g = marey_graph.MareyGraph()
g._gheight = 120
d = [1, 1, 1]
h = 100
assert g._CalculateYLines(d) == [0, h // 3, int(2 * (h / 3.)), h], (
    g._CalculateYLines(d))
""", 'distances that do not divide the height',
 'stations are placed a pixel off')

seed('d30-metre', 'C30', 'transitfeed/problems.py',
 "    # Sort in increasing order because less distance is more significant.\n    return cmp(self.distance, y.distance)\n\nclass StationsTooClose",
 "    # Sort in increasing order because less distance is more significant.\n    return cmp(int(self.distance * 10), int(y.distance * 10))\n\nclass StationsTooClose",
 '''
import feedvalidator
from transitfeed import problems
l = feedvalidator.BoundedProblemList(1)
for d in (.38, .31):
    l.Add(problems.StopsTooClose(stop_name_a='a', stop_id_a='a',
                                 stop_name_b='b', stop_id_b='b', distance=d))
assert [e.distance for e in l.problems] == [.31], l.problems
''', 'pairs of stops less than ten centimetres apart in their distances',
 'the closer pair may be dropped')

seed('d37-greedy', 'C37', 'transitfeed/shapelib.py',
 "          h_y = y.GetDistanceMeters(goal)\n          f_y = tentative_g_score + h_y",
 "          h_y = y.GetDistanceMeters(goal)\n          f_y = tentative_g_score + 2 * h_y",
 '''
from transitfeed import shapelib
P = shapelib.Point.FromLatLng
a, d = P(0, 0), P(0, .010)
c = P(0, .005)      # on the way, but over long lines
b = P(.004, .003)   # a detour, over straight lines
g = shapelib.PolyGraph()
g.AddPoly(shapelib.Poly([a, c], 'ac'))
g.AddPoly(shapelib.Poly([c, P(.006, .0075), d], 'cd'))
g.AddPoly(shapelib.Poly([a, b], 'ab'))
g.AddPoly(shapelib.Poly([b, d], 'bd'))
p = g.ShortestPath(a, d)
best = min(x.LengthMeters() for x in (
    shapelib.Poly([a, c, P(.006, .0075), d]), shapelib.Poly([a, b, d])))
assert abs(p.LengthMeters() - best) < 1, (p.LengthMeters(), best)
''', 'a way that leads towards the goal over a long line',
 'the path found is not the shortest')

seed('d45-private', 'C45', 'extensions/googletransit/pybcp47/bcp47languageparser.py',
 '"[xX](-([a-zA-Z0-9]{1,8}))+"', '"[xX](-([a-zA-Z0-9]{2,8}))+"',
 '''
from extensions.googletransit.pybcp47 import bcp47languageparser
p = bcp47languageparser.Bcp47LanguageParser()
assert p.IsWellformed('de-x-a')
''', 'a private subtag of a single character', 'well-formed tags are refused')

seed('d46-middle', 'C46', 'transitfeed/util.py',
 "      m = re.search(r'version=(\\d+\\.\\d+\\.\\d+)', content)",
 "      m = re.search(r'version=(\\d+\\.\\d\\.\\d+)', content)",
 '''
import urllib2
from transitfeed import util, problems
class A(object):
    seen = []
    def _Report(self, e):
        self.seen.append(e)
class R(object):
    def read(self):
        return 'version=1.10.1'
urllib2.urlopen = lambda *a, **k: R()
util.CheckVersion(problems.ProblemReporter(A()))
assert [e.__class__.__name__ for e in A.seen] == ['NewVersionAvailable'], A.seen
''', 'a released version whose second number has two digits',
 'the newer version is not noticed')

seed('d48-rules', 'C48', 'transitfeed/fareattribute.py',
 "    self_rules = [r.GetFieldValuesTuple() for r in self.GetFareRuleList()]\n    self_rules.sort()\n    other_rules = [r.GetFieldValuesTuple() for r in other.GetFareRuleList()]\n    other_rules.sort()\n    return self_rules == other_rules",
 "    self_rules = set(tuple(r.GetFieldValuesTuple()) for r in self.GetFareRuleList())\n    other_rules = set(tuple(r.GetFieldValuesTuple()) for r in other.GetFareRuleList())\n    return self_rules == other_rules",
 '''
import transitfeed
def fare(n):
    f = transitfeed.FareAttribute('F', '1.0', 'USD', 0, 0)
    f.rules = [transitfeed.FareRule('F', 'R') for i in range(n)]
    return f
assert fare(1) != fare(2)
''', 'fares having the same rule once and twice', 'they compare equal')

seed('d50-first', 'C50', 'transitfeed/gtfsfactory.py',
 "      if loading_order is not None:\n        result.append((loading_order, filename))",
 "      if loading_order:\n        result.append((loading_order, filename))",
 '''
import transitfeed
f = transitfeed.GtfsFactory()
f.UpdateMapping('agency.txt', {'loading_order': 0})
assert f.GetLoadingOrder()[0] == 'agency.txt'
''', 'a file put in front of all with order zero', 'the file is not loaded')

seed('d51-lang', 'C51', 'transitfeed/schedule.py',
 "          not self.feed_info.feed_lang == agency.agency_lang):",
 "          not agency.agency_lang.startswith(self.feed_info.feed_lang)):",
 FEED_HELP + '''
s.feed_info = transitfeed.FeedInfo(field_dict=dict(feed_lang='e'))
s.GetAgencyList()[0].agency_lang = 'en'
s.ValidateFeedInfoLangMatchesAgencyLang(rep)
assert acc.names() == ['InvalidValue'], acc.names()
''', 'a feed language that begins the language of an agency',
 'the differing language is not reported')
