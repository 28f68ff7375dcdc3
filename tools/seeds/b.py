FEED_HELP = '''
import datetime, transitfeed
from transitfeed import problems
class A(object):
    def __init__(self):
        self.seen = []
    def _Report(self, e):
        self.seen.append(e)
acc = A()
rep = problems.ProblemReporter(acc)
s = transitfeed.Schedule(memory_db=True, problem_reporter=rep)
s.AddAgency('A', 'http://a', 'America/Los_Angeles', 'AG')
p = s.NewDefaultServicePeriod()
p.SetStartDate('20100101')
p.SetEndDate('20100401')
p.SetWeekdayService(True)
p.SetWeekendService(True)
r = s.AddRoute('1', 'One', 'Bus', 'R')
st = [s.AddStop(10 + i * .001, 20, 'x%d' % i, 'X%d' % i) for i in range(4)]
t = r.AddTrip(s, 'h', p, 'T')
'''

seed('c02-day', 'C02', 'transitfeed/util.py',
 "                         int(date_string[6:8]))\n  except ValueError:",
 "                         int(date_string[6:8]) % 80)\n  except ValueError:",
 '''
from transitfeed import util
for d in ('20100181', '20100199', '20100180'):
    assert util.DateStringToDateObject(d) is None, d
''', 'a day number above 80', 'dates with an impossible day are accepted')

seed('c04-end', 'C04', 'transitfeed/schedule.py',
 "    if self.feed_info and self.feed_info.feed_end_date:\n",
 "    if (self.feed_info and self.feed_info.feed_end_date and\n        self.feed_info.feed_end_date >= minvalue):\n",
 FEED_HELP + '''
s.AddFeedInfoObject(transitfeed.FeedInfo(field_dict={
    'feed_end_date': '20091215'}))
got = s.GetDateRangeWithOrigins()
assert got[1] == '20091215', got
''', 'a feed end date before the first service',
 'the feed end date is not honoured')

seed('c10-start', 'C10', 'transitfeed/trip.py',
 "'trip_id=? ORDER BY stop_sequence LIMIT 1', (self.trip_id,))\n    (arrival_secs, departure_secs) = cursor.fetchone()\n    if arrival_secs != None:\n      return arrival_secs\n",
 "'trip_id=? ORDER BY stop_sequence LIMIT 1', (self.trip_id,))\n    (arrival_secs, departure_secs) = cursor.fetchone()\n    if arrival_secs:\n      return arrival_secs\n",
 FEED_HELP + '''
t.AddStopTime(st[0], arrival_secs=0, departure_secs=60)
t.AddStopTime(st[1], stop_time='08:00:00')
assert t.GetStartTime() == 0, t.GetStartTime()
''', 'a trip arriving at its first stop at midnight and leaving later',
 'the trip starts at the departure instead of the arrival')

seed('c13-neighbours', 'C13', 'transitfeed/trip.py',
 "    for headway_index, headway in enumerate(self._headways[0:-1]):\n      for other in self._headways[headway_index + 1:]:\n",
 "    headways = sorted(self._headways)\n    for headway_index, headway in enumerate(headways[0:-1]):\n      for other in headways[headway_index + 1:]:\n        if other[0] >= headways[headway_index + 1][1]:\n          break\n",
 FEED_HELP + '''
t.AddStopTime(st[0], stop_time='08:00:00')
t.AddStopTime(st[1], stop_time='08:10:00')
t.AddFrequency('08:00:00', '12:00:00', 600)
t.AddFrequency('09:00:00', '09:30:00', 600)
t.AddFrequency('10:00:00', '11:00:00', 600)
acc.seen = []
t.ValidateFrequencies(rep)
assert len(acc.seen) == 2, acc.seen
''', 'a long window around two short ones that do not touch',
 'an overlap with a later window is missed')

seed('c17-snap', 'C17', 'transitfeed/shape.py',
 "    ba = bc + ca\n    if ba == 0:",
 "    ba = bc + ca\n    if ba > ca * 500:\n      return self.points[index - 1]\n    if ba == 0:",
 '''
import transitfeed
s = transitfeed.Shape('S')
s.AddPoint(10, 20, 0.0)
s.AddPoint(20, 20, 1000.0)
got = s.GetPointWithDistanceTraveled(1.0)
assert got[2] == 1.0 and got[0] != 10, got
''', 'a distance in the first five hundredth of a segment',
 'the point is the start of the segment')

seed('c23-plus', 'C23', 'transitfeed/util.py',
 r'''match = re.match(r"^(?:0|[1-9]\d*)$", int_string)''',
 r'''match = re.match(r"^(?:0|[1-9]\d*)\s*$", int_string)''',
 '''
from transitfeed import util
class P(object):
    n = 0
    def InvalidNonNegativeIntegerValue(self, x):
        self.n += 1
p = P()
assert util.NonNegIntStringToInt('12 ', p) == 12
assert p.n == 1
''', 'a number followed by blanks', 'the blanks are not flagged')

seed('c24-mail', 'C24', 'transitfeed/util.py',
 r'''re.match(r'[^@]+@[^@]+\.[^@]+', email)''',
 r'''re.match(r'[^@]+@[^@.]+\.[^@]+', email)''',
 '''
from transitfeed import util
assert util.ValidateEmail('a@b.c.de')
assert util.ValidateEmail('a@.b.c')
''', 'a domain starting with a dot', 'a valid address is rejected')

seed('c25-desc', 'C25', 'transitfeed/stop.py',
 "self.stop_name.strip().lower() == self.stop_desc.strip().lower()):",
 "self.stop_name.strip().lower() == self.stop_desc.lower().rstrip()):",
 '''
import transitfeed
from transitfeed import problems
seen = []
class A(object):
    def _Report(self, e):
        seen.append(e)
s = transitfeed.Stop(10, 20, 'Main', 'S')
s.stop_desc = ' main'
s.ValidateStopDescriptionAndNameAreDifferent(problems.ProblemReporter(A()))
assert len(seen) == 1
''', 'a description with a leading blank', 'the repeated name is not reported')

seed('c26-zero', 'C26', 'transitfeed/transfer.py',
 "  def ValidateTransferWalkingTime(self, problems):\n    if util.IsEmpty(self.min_transfer_time):",
 "  def ValidateTransferWalkingTime(self, problems):\n    if not self.min_transfer_time:",
 FEED_HELP + '''
a = s.AddStop(10, 20.01, 'a', 'A1')
tr = transitfeed.Transfer(from_stop_id='X0', to_stop_id='A1',
                          transfer_type=2, min_transfer_time=0)
acc.seen = []
tr._schedule = s
tr.Validate(rep)
assert [e for e in acc.seen if 'Walking' in type(e).__name__], acc.seen
''', 'a minimum time of zero between stops too far apart',
 'the impossible walk is not reported')

seed('c27-duration', 'C27', 'transitfeed/fareattribute.py',
 "    if self.transfer_duration and (self.transfer_duration < 0):",
 "    if self.transfers and self.transfer_duration and (\n        self.transfer_duration < 0):",
 '''
import transitfeed
from transitfeed import problems
seen = []
class A(object):
    def _Report(self, e):
        seen.append(e)
f = transitfeed.FareAttribute('F', '1.5', 'USD', 0, 0, -5)
f.Validate(problems.ProblemReporter(A()))
assert seen, seen
''', 'a negative duration with no transfers allowed',
 'the negative duration is not reported')

seed('c35-touch', 'C35', 'merge.py',
 "        if overlap_end >= overlap_start:\n          return False",
 "        if overlap_end > overlap_start or (\n            overlap_end == overlap_start == a_end):\n          return False",
 '''
import merge, transitfeed
def sched(*ranges):
    s = transitfeed.Schedule(memory_db=True)
    for i, (a, b) in enumerate(ranges):
        p = transitfeed.ServicePeriod('S%d' % i)
        p.SetStartDate(a)
        p.SetEndDate(b)
        p.SetWeekdayService(True)
        s.AddServicePeriodObject(p)
    return s
a, b = sched(('20100105', '20100110')), sched(('20100101', '20100105'))
class P(object):
    def __getattr__(self, n):
        return lambda *a, **k: None
fm = merge.FeedMerger(a, b, transitfeed.Schedule(memory_db=True),
                      merge.MergeProblemReporter(merge.HTMLProblemAccumulator()))
m = merge.ServicePeriodMerger(fm)
assert not m.CheckDisjointCalendars()
''', 'an old service starting on the last day of a new one',
 'calendars that share that day are called disjoint')
