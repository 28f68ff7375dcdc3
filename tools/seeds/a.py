seed('c01-format', 'C01', 'transitfeed/util.py',
 'return "%02d:%02d:%02d" % (s / 3600, (s / 60) % 60, s % 60)',
 'return "%02d:%02d:%02d" % (s / 3600 % 100, (s / 60) % 60, s % 60)',
 '''
from transitfeed import util
for h in (0, 8, 25, 99, 100, 123, 999):
    t = h * 3600 + 754
    assert util.TimeToSecondsSinceMidnight(
        util.FormatSecondsSinceMidnight(t)) == t, h
''', 'a time of 100 hours or more',
 'times from 100:00:00 on are printed with the hundreds of hours dropped')

seed('c03-range', 'C03', 'transitfeed/serviceperiod.py',
 "      if not end or (date > end):\n        end = date\n",
 "      elif not end or (date > end):\n        end = date\n",
 '''
from transitfeed import ServicePeriod
p = ServicePeriod('S')
p.SetDateHasService('20100105')
p.SetDateHasService('20100103')
assert p.GetDateRange() == ('20100103', '20100105'), p.GetDateRange()
p = ServicePeriod('S')
p.SetStartDate('20100110')
p.SetDateHasService('20100105')
assert p.GetDateRange() == ('20100105', '20100105'), p.GetDateRange()
''', 'a service without an end date whose added exceptions keep moving the start earlier',
 'the last day of such a service is lost from its range and active dates')

seed('c05-runs', 'C05', 'transitfeed/schedule.py',
 "      service_id_to_departures[trip.service_id] += (\n          (trip.GetCountStopTimes() - 1) * trip_runs)",
 "      service_id_to_departures[trip.service_id] += max(\n          (trip.GetCountStopTimes() - 1) * trip_runs,\n          (trip.GetCountStopTimes() - 1) + (trip_runs > 2))",
 '''
import datetime
import transitfeed
s = transitfeed.Schedule(memory_db=True)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100102')
for i in range(7):
    p.SetDayOfWeekHasService(i)
r = s.AddRoute('1', 'One', 'Bus', 'R')
st = s.AddStop(10, 20, 'x', 'X')
t = r.AddTrip(s, 'h', p, 'T')
t.AddStopTime(st, schedule=s, stop_time='08:00:00')
t.AddFrequency('08:00:00', '09:00:00', 1200)
got = s.GenerateDateTripsDeparturesList(datetime.date(2010, 1, 1),
                                        datetime.date(2010, 1, 2))
assert got == [(datetime.date(2010, 1, 1), 3, 0)], got
''', 'a one-stop trip with more than two frequency runs',
 'departures are counted for a trip that has none')

seed('c06-today', 'C06', 'transitfeed/schedule.py',
 "                                        days=service_gap_interval - 1)",
 "                                        days=max(service_gap_interval - 1, 1))",
 '''
import datetime
import transitfeed
from transitfeed import problems
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
a = A()
s = transitfeed.Schedule(memory_db=True,
                         problem_reporter=problems.ProblemReporter(a))
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100401')
for i in range(7):
    p.SetDayOfWeekHasService(i)
p.SetDateHasService('20100109', False)
r = s.AddRoute('1', 'One', 'Bus', 'R')
st = s.AddStop(10, 20, 'x', 'X')
t = r.AddTrip(s, 'h', p, 'T')
a.seen = []
s.ValidateServiceRangeAndExceptions(problems.ProblemReporter(a),
                                    datetime.date(2010, 1, 10), 1)
gaps = [e for e in a.seen
        if e.__class__.__name__ == 'TooManyDaysWithoutService']
assert gaps == [], gaps
''', 'a configured gap length of one day and yesterday without service',
 'a gap that is wholly in the past is reported')

seed('c08-equal', 'C08', 'transitfeed/trip.py',
 "          if timepoint.arrival_secs >= prev_departure:\n            prev_departure = timepoint.departure_secs\n            prev_stop = timepoint.stop",
 "          if timepoint.arrival_secs >= prev_departure:\n            prev_departure = timepoint.arrival_secs\n            prev_stop = timepoint.stop",
 '''
import transitfeed
from transitfeed import problems
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
a = A()
s = transitfeed.Schedule(memory_db=True)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100401')
p.SetWeekdayService(True)
r = s.AddRoute('1', 'One', 'Bus', 'R')
t = r.AddTrip(s, 'h', p, 'T')
from transitfeed import StopTime
q = problems.ProblemReporter(a)
times = [(0, 0), (3600, 4200), (4000, 4300), (8000, 8000)]
for i, (x, y) in enumerate(times):
    st = s.AddStop(10 + i * 0.001, 20, 'x%d' % i, 'X%d' % i)
    t._AddStopTimeObjectUnordered(
        StopTime(q, st, arrival_secs=x, departure_secs=y,
                 stop_sequence=i + 1), s)
t.ValidateChildren(q)
bad = [e for e in a.seen if 'Timetravel' in getattr(e, 'description', '')]
assert len(bad) == 1, a.seen
''', 'a stop with a dwell whose departure is after the arrival at the next stop',
 'time travel is measured against the previous arrival, so it is missed')

seed('c11-tie', 'C11', 'transitfeed/trip.py',
 "        cur_timepoint = st\n        distance_between_timepoints = 0\n        distance_traveled_between_timepoints = 0\n",
 "        cur_timepoint = st\n        distance_between_timepoints = 0\n        if i + 1 < len(stoptimes) and stoptimes[i + 1].GetTimeSecs() != None:\n          distance_traveled_between_timepoints = 0\n",
 '''
import transitfeed
s = transitfeed.Schedule(memory_db=True)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100401')
p.SetWeekdayService(True)
r = s.AddRoute('1', 'One', 'Bus', 'R')
t = r.AddTrip(s, 'h', p, 'T')
for i, x in enumerate([0, None, 600, None, 1200]):
    st = s.AddStop(10 + i * 0.01, 20, 'x%d' % i, 'X%d' % i)
    if x is None:
        t.AddStopTime(st, schedule=s)
    else:
        t.AddStopTime(st, schedule=s, arrival_secs=x, departure_secs=x)
got = [x[0] for x in t.GetTimeInterpolatedStops()]
assert got == [0, 300, 600, 900, 1200], got
''', 'two stretches of untimed stops one directly after the other, with a single timed stop between',
 'times in the second stretch are too late, beyond the following timed stop')

seed('c14-cache', 'C14', 'transitfeed/schedule.py',
 "            service_id_pair_key = tuple(sorted([trip_a.service_id,\n                                                trip_b.service_id]))",
 "            service_id_pair_key = (trip_a.service_id < trip_b.service_id,\n                                   min(trip_a.service_id, trip_b.service_id))",
 '''
import transitfeed
from transitfeed import problems, ServicePeriod
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
a = A()
q = problems.ProblemReporter(a)
s = transitfeed.Schedule(memory_db=True)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
r = s.AddRoute('1', 'One', 'Bus', 'R')
x, y = s.AddStop(10, 20, 'x', 'X'), s.AddStop(10.1, 20, 'y', 'Y')
for k, d in (('S1', '20100104'), ('S2', '20100105'), ('S3', '20100104')):
    p = ServicePeriod(k)
    p.SetDateHasService(d)
    s.AddServicePeriodObject(p)
for i, k in enumerate(['S1', 'S2', 'S3']):
    t = r.AddTrip(s, 'h', s.GetServicePeriod(k), 'T%d' % i)
    t.block_id = 'B'
    b = 3600 + i * 60
    t.AddStopTime(x, schedule=s, arrival_secs=b, departure_secs=b)
    t.AddStopTime(y, schedule=s, arrival_secs=b + 3600,
                  departure_secs=b + 3600)
s.ValidateTrips(q)
got = [(e.trip_id1, e.trip_id2) for e in a.seen
       if e.__class__.__name__ == 'OverlappingTripsInSameBlock']
assert got == [('T0', 'T2')], got
''', 'three services in one block, the answer for the first pair cached and used for another pair',
 'a conflicting pair is missed (or a compatible pair reported) after another pair with the same first service')

seed('c15-dwell', 'C15', 'transitfeed/schedule.py',
 "      else:\n        CheckSameTimeCount()\n        consecutive_stop_times_with_potentially_same_time = 1\n",
 "      else:\n        CheckSameTimeCount()\n        consecutive_stop_times_with_potentially_same_time = (\n            consecutive_stop_times_with_fully_specified_same_time > 5 and 2 or 1)\n",
 '''
import transitfeed
from transitfeed import problems, StopTime
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
a = A()
q = problems.ProblemReporter(a)
s = transitfeed.Schedule(memory_db=True)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100401')
p.SetWeekdayService(True)
r = s.AddRoute('1', 'One', 'Bus', 'R')
t = r.AddTrip(s, 'h', p, 'T')
for i in range(11):
    st = s.AddStop(10 + i * 0.01, 20, 'x%d' % i, 'X%d' % i)
    b = 3600 if i < 6 else 7200
    t.AddStopTime(st, schedule=s, arrival_secs=b, departure_secs=b)
s.ValidateTrips(q)
got = [e.number_of_stop_times for e in a.seen if e.__class__.__name__ ==
       'TooManyConsecutiveStopTimesWithSameTime']
assert got == [6], got
''', 'a long run followed directly by a run of five',
 'a run of five after a long one is reported as six')

seed('c16-first', 'C16', 'transitfeed/shape.py',
 "      index = bisect.bisect(self.sequence, shapepoint.shape_pt_sequence)",
 "      index = bisect.bisect(self.sequence, shapepoint.shape_pt_sequence,\n                            len(self.sequence) // 3)",
 '''
from transitfeed import Shape, ShapePoint, problems
class A(object):
    def _Report(self, e):
        raise AssertionError(e)
q = problems.ProblemReporter(A())
s = Shape('S')
for k in (10, 20, 30, 40, 50, 60, 15):
    p = ShapePoint('S', 10 + k * 0.01, 20, k, k)
    p.ParseAttributes(q)
    s.AddShapePointObjectUnsorted(p, q)
assert s.sequence == sorted(s.sequence), s.sequence
''', 'six or more points already stored and a late point belonging near the beginning',
 'the late point is stored out of order')

seed('c18-zone', 'C18', 'transitfeed/schedule.py',
 "    fare.Validate(problem_reporter)\n\n    if fare.fare_id in self.fares:\n",
 "    fare.Validate(problem_reporter)\n\n    if fare.fare_id in self.fares and not self.fares[fare.fare_id] == fare:\n",
 '''
import transitfeed
from transitfeed import problems, FareAttribute, FareRule
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
a = A()
q = problems.ProblemReporter(a)
s = transitfeed.Schedule(memory_db=True, problem_reporter=q)
s.AddFareAttributeObject(FareAttribute('F', '1', 'USD', 0, 0), q)
s.AddFareAttributeObject(FareAttribute('F', '1', 'USD', 0, 0), q)
got = [e for e in a.seen if e.__class__.__name__ == 'DuplicateID']
assert len(got) == 1, a.seen
''', 'a fare repeated with identical fields',
 'an identical repeat of a fare id is not reported and replaces the first fare')

seed('c19-contains', 'C19', 'transitfeed/schedule.py',
 "    if rule.contains_id and rule.contains_id not in self.fare_zones:",
 "    if (rule.contains_id and rule.contains_id != rule.origin_id and\n        rule.contains_id not in self.fare_zones):",
 '''
import transitfeed
from transitfeed import problems, FareAttribute, FareRule
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
a = A()
q = problems.ProblemReporter(a)
s = transitfeed.Schedule(memory_db=True, problem_reporter=q)
s.AddFareAttributeObject(FareAttribute('F', '1', 'USD', 0, 0), q)
s.AddFareRuleObject(FareRule('F', None, 'Z', None, 'Z'), q)
got = sorted([e.column_name for e in a.seen])
assert got == ['contains_id', 'origin_id'], got
''', 'a fare rule whose contains zone equals its origin zone, both unknown',
 'the unknown contains zone is not reported')

seed('c20-short', 'C20', 'transitfeed/loader.py',
 "          if len(row) <= ci:  # handle short CSV rows\n            result[i] = u''",
 "          if len(row) <= ci:  # handle short CSV rows\n            result[i] = len(row) > 1 and u'' or None",
 '''
from transitfeed import loader, problems
class A(object):
    def _Report(self, e):
        pass
class Z(object):
    def read(self, n):
        return 'a,b\\nx\\ny,z\\n'
ld = loader.Loader(problems=problems.ProblemReporter(A()), zip=Z())
got = [r[0] for r in ld._ReadCSV('t.txt', ['a', 'b'], ['a', 'b'], [])]
assert got == [['x', ''], ['y', 'z']], got
''', 'a row with a single cell in a table read by position',
 'missing cells of a one-cell row become None instead of blank')

seed('c21-mixed', 'C21', 'transitfeed/util.py',
 '    if m_eol.group() == "\\x0d\\x0a":\n      self._crlf += 1\n      if self._crlf <= 5:',
 '    if m_eol.group() == "\\x0d\\x0a":\n      self._crlf += 1\n      if len(self._crlf_examples) + len(self._lf_examples) < 10 and self._crlf <= 6 - (self._lf == 0):',
 '''
from StringIO import StringIO
from transitfeed import util, problems
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
a = A()
t = 'a\\n' + 'b\\r\\n' * 7
list(util.EndOfLineChecker(StringIO(t), 'f.txt', problems.ProblemReporter(a)))
assert len(a.seen) == 1
assert '(lines 2, 3, 4, 5, 6, ...)' in a.seen[0].description, \\
    a.seen[0].description
''', 'an LF line before more than five CR LF lines',
 'six instead of five example lines are listed')
