From 70663276f2f389d0ab85eaff07da16d2d06c8868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 01/49] fix: name the period that supplies a date range bound

---
 transitfeed/schedule.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 69e8c30..b310dcc 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -281,14 +281,15 @@ class Schedule(object):
     """
     period_list = self.GetServicePeriodList()
     ranges = [period.GetDateRange() for period in period_list]
-    starts = filter(lambda x: x, [item[0] for item in ranges])
-    ends = filter(lambda x: x, [item[1] for item in ranges])
+    # Keep the index of each period, periods without dates are left out
+    starts = [(item[0], i) for i, item in enumerate(ranges) if item[0]]
+    ends = [(item[1], i) for i, item in enumerate(ranges) if item[1]]
 
     if not starts or not ends:
       return (None, None, None, None)
 
-    minvalue, minindex = min(itertools.izip(starts, itertools.count()))
-    maxvalue, maxindex = max(itertools.izip(ends, itertools.count()))
+    minvalue, minindex = min(starts)
+    maxvalue, maxindex = max(ends)
 
     minreason = (period_list[minindex].HasDateExceptionOn(minvalue) and
                  "earliest service exception date in calendar_dates.txt" or
-- 
2.43.0


From 27490189bffd9edf2ab33ac43d709ce27ecc8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:24 +0000
Subject: [PATCH 02/49] fix: do not divide by zero when interpolating between
 stops at one place

---
 transitfeed/trip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index ae9b374..ea0030c 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -208,7 +208,11 @@ class Trip(GtfsObjectBase):
         rv.append( (st.GetTimeSecs(), st, True) )
       else:
         distance_traveled_between_timepoints += util.ApproximateDistanceBetweenStops(stoptimes[i-1].stop, st.stop)
-        distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        if distance_between_timepoints:
+          distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        else:
+          # All the stops up to the next timepoint are at the same place.
+          distance_percent = 0.0
         total_time = next_timepoint.GetTimeSecs() - cur_timepoint.GetTimeSecs()
         time_estimate = distance_percent * total_time + cur_timepoint.GetTimeSecs()
         rv.append( (int(round(time_estimate)), st, False) )
-- 
2.43.0


From 9705f49e04d6c2f481ddfcfcf11137a540a68997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:06 +0000
Subject: [PATCH 03/49] fix: do not store a frequency with a negative start
 time

---
 transitfeed/trip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index ea0030c..6b5275e 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -435,6 +435,7 @@ class Trip(GtfsObjectBase):
         return
     elif start_time < 0:
       problem_reporter.InvalidValue('start_time', start_time)
+      return
 
     if end_time == None or end_time == '':
       problem_reporter.MissingValue('end_time')
-- 
2.43.0


From 083124dd2df97a4db35732c5e88442f395963be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:07 +0000
Subject: [PATCH 04/49] fix: make the deprecated headway period methods of Trip
 work

---
 transitfeed/trip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 6b5275e..2601ff9 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -385,7 +385,7 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequencyObject(frequency, problem_reporter)
+    self.AddFrequencyObject(headway_period, problem_reporter)
 
   def AddFrequencyObject(self, frequency, problem_reporter):
     """Add a Frequency object to this trip's list of Frequencies."""
@@ -402,7 +402,8 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequency(start_time, end_time, headway_secs, problem_reporter)
+    self.AddFrequency(start_time, end_time, headway_secs,
+                      problem_reporter=problem_reporter)
 
   def AddFrequency(self, start_time, end_time, headway_secs, exact_times=0,
       problem_reporter=problems_module.default_problem_reporter):
-- 
2.43.0


From f7dcd83b976f218257d025040dc731fe489d30c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 05/49] fix: keep checking other block pairs after an unknown
 service id

---
 transitfeed/schedule.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index b310dcc..17cc089 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1250,14 +1250,14 @@ class Schedule(object):
             # full service period comparison
             if service_id_pair_key not in service_period_overlap_cache:
               
-              # If the trip references an unknown service id, then we bail,
-              # since we can't effectively determine block overlap and an
-              # error will have already been registered for the missing
-              # service id.
+              # If the trip references an unknown service id, then we skip
+              # this pair, since we can't effectively determine block overlap
+              # and an error will have already been registered for the
+              # missing service id.
               if trip_a.service_id not in self.service_periods:
-                return
+                continue
               if trip_b.service_id not in self.service_periods:
-                return
+                continue
 
               service_period_a = self.GetServicePeriod(trip_a.service_id)
               service_period_b = self.GetServicePeriod(trip_b.service_id)
-- 
2.43.0


From f3822414fa4fa1d6d2e134b509d2c371ed221a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:00 +0000
Subject: [PATCH 06/49] fix: clear all point data in Shape.ClearPoints

---
 transitfeed/shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 35cfb20..34f0ac2 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -97,6 +97,9 @@ class Shape(GtfsFactoryUser):
 
   def ClearPoints(self):
     self.points = []
+    self.max_distance = 0
+    self.distance = []
+    self.sequence = []
 
   def __eq__(self, other):
     if not other:
-- 
2.43.0


From 92b3d9a910a86f9a2fd87e647d891beba284f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:09 +0000
Subject: [PATCH 07/49] fix: do not compare a shape distance with a missing one

---
 transitfeed/shape.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 34f0ac2..1ccada3 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -69,6 +69,7 @@ class Shape(GtfsFactoryUser):
 
     if shapepoint.shape_dist_traveled is not None and len(self.sequence) > 0:
       if (index != len(self.sequence) and
+          self.distance[index] is not None and
           shapepoint.shape_dist_traveled > self.distance[index]):
         problems.InvalidValue('shape_dist_traveled',
                               shapepoint.shape_dist_traveled,
-- 
2.43.0


From f69a552dbc82262948e5fa05647ea3fc433f9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:20 +0000
Subject: [PATCH 08/49] fix: report duplicate transfers to the given problem
 reporter

---
 transitfeed/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 17cc089..6e8eaa8 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -557,9 +557,9 @@ class Schedule(object):
     transfer_id = transfer._ID()
 
     if transfer_id in self._transfers:
-      self.problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
-                                        transfer_id,
-                                        type=problems_module.TYPE_WARNING)
+      problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
+                                   transfer_id,
+                                   type=problems_module.TYPE_WARNING)
       # Duplicates are still added, while not prohibited by GTFS.
 
     transfer._schedule = weakref.proxy(self)  # See weakref comment at top
-- 
2.43.0


From 4fc0027e487d64dd8fd1e4f9336d9392860133be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 09/49] fix: keep zero values in written stop_times rows

---
 transitfeed/stoptime.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 21bdea4..c97aa64 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -177,7 +177,10 @@ class StopTime(object):
       else:
         # Since we'll be writting to an output file, we want empty values to be
         # outputted as an empty string
-        result.append(getattr(self, fn) or '' )
+        value = getattr(self, fn)
+        if value is None:
+          value = ''
+        result.append(value)
     return tuple(result)
 
   def GetSqlValuesTuple(self, trip_id):
-- 
2.43.0


From c80d0bd6af7247dadd50dd5c0ed81bc9e55f84a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:56 +0000
Subject: [PATCH 10/49] fix: write a feed whose feed_info table has no rows

---
 transitfeed/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 6e8eaa8..5a8dfa4 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -648,7 +648,9 @@ class Schedule(object):
       writer = util.CsvUnicodeWriter(feed_info_string)
       columns = self.GetTableColumns('feed_info')
       writer.writerow(columns)
-      writer.writerow([util.EncodeUnicode(self.feed_info[c]) for c in columns])
+      if self.feed_info is not None:
+        writer.writerow([util.EncodeUnicode(self.feed_info[c])
+                         for c in columns])
       self._WriteArchiveString(archive, 'feed_info.txt', feed_info_string)
 
     calendar_dates_string = StringIO()
-- 
2.43.0


From 7f9b374442c8a058c198755c936289d1628002d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:36 +0000
Subject: [PATCH 11/49] fix: a stop query for no stops returns none

---
 transitfeed/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 5a8dfa4..fd6668f 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -590,7 +590,7 @@ class Schedule(object):
       dist = (s.stop_lat - lat)**2 + (s.stop_lon - lon)**2
       if len(dist_stop_list) < n:
         bisect.insort(dist_stop_list, (dist, s))
-      elif dist < dist_stop_list[-1][0]:
+      elif dist_stop_list and dist < dist_stop_list[-1][0]:
         bisect.insort(dist_stop_list, (dist, s))
         dist_stop_list.pop()  # Remove stop with greatest distance
     return [stop for dist, stop in dist_stop_list]
@@ -599,11 +599,11 @@ class Schedule(object):
     """Return a sample of up to n stops in a bounding box"""
     stop_list = []
     for s in self.stops.values():
+      if len(stop_list) >= n:
+        break
       if (s.stop_lat <= north and s.stop_lat >= south and
           s.stop_lon <= east and s.stop_lon >= west):
         stop_list.append(s)
-        if len(stop_list) == n:
-          break
     return stop_list
 
   def Load(self, feed_path, extra_validation=False):
-- 
2.43.0


From 139b145bf33f3ad86b942b2b4950a82a1c182d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:38 +0000
Subject: [PATCH 12/49] fix: the feed merger keeps transfers

---
 merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge.py b/merge.py
index 0991096..3be518f 100755
--- a/merge.py
+++ b/merge.py
@@ -1719,6 +1719,7 @@ class FeedMerger(object):
     """Adds the default DataSetMergers defined in this module."""
     self.AddMerger(AgencyMerger(self))
     self.AddMerger(StopMerger(self))
+    self.AddMerger(TransferMerger(self))
     self.AddMerger(RouteMerger(self))
     self.AddMerger(ServicePeriodMerger(self))
     self.AddMerger(FareMerger(self))
-- 
2.43.0


From fb5d1bd2bd3f1219ead24fc022032b071cbe6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:59 +0000
Subject: [PATCH 13/49] fix: add a merged trip to the route it refers to

---
 merge.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/merge.py b/merge.py
index 3be518f..14a3b08 100755
--- a/merge.py
+++ b/merge.py
@@ -1439,18 +1439,20 @@ class TripMerger(DataSetMerger):
       migrated_trip.trip_id = self.feed_merger.GenerateId(
           original_trip.trip_id)
       migrated_trip.original_trip_id = original_trip.trip_id
-    # Need to add trip to schedule before copying stoptimes
-    self.feed_merger.merged_schedule.AddTripObject(migrated_trip,
-                                                   validate=False)
 
     if schedule == self.feed_merger.a_schedule:
       merge_map = self.feed_merger.a_merge_map
     else:
       merge_map = self.feed_merger.b_merge_map
 
+    # AddTripObject adds the trip to the route it refers to.
     original_route = schedule.GetRoute(original_trip.route_id)
     migrated_trip.route_id = merge_map[original_route].route_id
 
+    # Need to add trip to schedule before copying stoptimes
+    self.feed_merger.merged_schedule.AddTripObject(migrated_trip,
+                                                   validate=False)
+
     original_service_period = schedule.GetServicePeriod(
         original_trip.service_id)
     migrated_trip.service_id = merge_map[original_service_period].service_id
-- 
2.43.0


From a85a43a9207c6076e87cd1cf36b78d66505e38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:07 +0000
Subject: [PATCH 14/49] fix: merging keeps the timepoint of a stop time

---
 merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge.py b/merge.py
index 14a3b08..8ab2f5b 100755
--- a/merge.py
+++ b/merge.py
@@ -1477,7 +1477,8 @@ class TripMerger(DataSetMerger):
           original_stop_time.drop_off_type,
           original_stop_time.shape_dist_traveled,
           original_stop_time.arrival_secs,
-          original_stop_time.departure_secs)
+          original_stop_time.departure_secs,
+          timepoint=original_stop_time.timepoint)
       migrated_trip.AddStopTimeObject(migrated_stop_time)
 
     for headway_period in original_trip.GetFrequencyTuples():
-- 
2.43.0


From d49dda225f212579141bb4a270637f1ae52dfac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:59 +0000
Subject: [PATCH 15/49] fix: zones of stops that are not merged stay apart

---
 merge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merge.py b/merge.py
index 8ab2f5b..08a779d 100755
--- a/merge.py
+++ b/merge.py
@@ -1030,7 +1030,9 @@ class StopMerger(DataSetMerger):
     # for the unmerged stops, we use an already mapped zone_id if possible
     # if not, we generate a new one and add it to the map
     for stop, migrated_stop in not_merged_stops:
-      if stop.zone_id in zone_map:
+      if not stop.zone_id:
+        pass  # a stop without a zone has none in the merged feed either
+      elif stop.zone_id in zone_map:
         migrated_stop.zone_id = zone_map[stop.zone_id]
       else:
         migrated_stop.zone_id = self.feed_merger.GenerateId(stop.zone_id)
@@ -1630,6 +1632,7 @@ class FeedMerger(object):
 
     id_data_sets = {'agency_id': schedule.GetAgencyList(),
                     'stop_id': schedule.GetStopList(),
+                    'zone_id': schedule.GetStopList(),
                     'route_id': schedule.GetRouteList(),
                     'trip_id': schedule.GetTripList(),
                     'service_id': schedule.GetServicePeriodList(),
-- 
2.43.0


From adca7278b7343b1c944c10e4b385ee1eae923869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:50 +0000
Subject: [PATCH 16/49] fix: cut calendars of services without a date range

---
 merge.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/merge.py b/merge.py
index 08a779d..fe5cf33 100755
--- a/merge.py
+++ b/merge.py
@@ -1185,8 +1185,11 @@ class ServicePeriodMerger(DataSetMerger):
         start: The start date as a string in YYYYMMDD format.
         end: The end date as a string in YYYYMMDD format.
       """
-      service_period.start_date = max(service_period.start_date, start)
-      service_period.end_date = min(service_period.end_date, end)
+      # A service period defined only in calendar_dates has no range.
+      if service_period.start_date:
+        service_period.start_date = max(service_period.start_date, start)
+      if service_period.end_date:
+        service_period.end_date = min(service_period.end_date, end)
       dates_to_delete = []
       for k in service_period.date_exceptions:
         if (k < start) or (k > end):
-- 
2.43.0


From f31e5f5156c8b8325a3382cfc57132c37a733ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:21 +0000
Subject: [PATCH 17/49] fix: service periods without dates are disjoint

---
 merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/merge.py b/merge.py
index fe5cf33..251b956 100755
--- a/merge.py
+++ b/merge.py
@@ -1228,6 +1228,8 @@ class ServicePeriodMerger(DataSetMerger):
       a_start, a_end = a_service_period.GetDateRange()
       for b_service_period in b_service_periods:
         b_start, b_end = b_service_period.GetDateRange()
+        if a_end is None or b_end is None:
+          continue  # a service period without any dates meets no other
         overlap_start = max(a_start, b_start)
         overlap_end = min(a_end, b_end)
         if overlap_end >= overlap_start:
-- 
2.43.0


From a75e7772f4fd95fcf13033c2601f5ebc3bcefa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:09 +0000
Subject: [PATCH 18/49] fix: update the priority of nodes reached by a shorter
 way in ShortestPath

---
 transitfeed/shapelib.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 5d6003b..3fff022 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -475,6 +475,9 @@ class PolyGraph(PolyCollection):
     came_from = {} # Map to reconstruct optimal path once we're done.
     while open_set:
       (f_x, x) = heapq.heappop(open_heap)
+      if x not in open_set:
+        # x was queued again with a better score and has been visited already.
+        continue
       open_set.remove(x)
       if x == goal:
         return self._ReconstructPath(came_from, goal)
@@ -489,14 +492,12 @@ class PolyGraph(PolyCollection):
           continue
         tentative_g_score = g_scores[x] + edge.LengthMeters()
         tentative_is_better = False
-        if y not in open_set:
+        if y not in open_set or tentative_g_score < g_scores[y]:
           h_y = y.GetDistanceMeters(goal)
           f_y = tentative_g_score + h_y
           open_set.add(y)
           heapq.heappush(open_heap, (f_y, y))
           tentative_is_better = True
-        elif tentative_g_score < g_scores[y]:
-          tentative_is_better = True
         if tentative_is_better:
           came_from[y] = (x, edge)
           g_scores[y] = tentative_g_score
-- 
2.43.0


From 6f6c169379ac11379c101a11378a6cf58037a3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:39 +0000
Subject: [PATCH 19/49] fix: keep the shortest paths in _AddPathToHeap

---
 transitfeed/shapelib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 3fff022..cd90a8e 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -611,4 +611,4 @@ class PolyGraph(PolyCollection):
         if len(heap) < keep_best_n:
           heapq.heappush(heap, new_item)
         else:
-          heapq.heapreplace(heap, new_item)
+          heapq.heappushpop(heap, new_item)
-- 
2.43.0


From d9277407b975b0d608fd9a9654f305082f3d1b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:04 +0000
Subject: [PATCH 20/49] fix: give shape variants a name no other polyline has

---
 transitfeed/shapelib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index cd90a8e..ab2fc53 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -404,7 +404,10 @@ class PolyCollection(object):
         print("  (Skipping as it apears to be an exact duplicate)")
       else:
         print("  (Adding new shape variant with uniquified name)")
-        inserted_name = "%s-%d" % (inserted_name, len(self._name_to_shape))
+        suffix = len(self._name_to_shape)
+        while inserted_name in self._name_to_shape:
+          inserted_name = "%s-%d" % (poly.GetName(), suffix)
+          suffix += 1
     self._name_to_shape[inserted_name] = poly
 
   def NumPolys(self):
-- 
2.43.0


From 3bde0fefd2b6415299a655cdf7427c431d66810c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:05 +0000
Subject: [PATCH 21/49] fix: let /home reach the start page

---
 schedule_viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 0ac217c..f9a18fb 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -160,7 +160,7 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def AllowEditMode(self):
     return False
 
-  def handle_GET_home(self):
+  def handle_GET_home(self, params=None):
     schedule = self.server.schedule
     (min_lat, min_lon, max_lat, max_lon) = schedule.GetStopBoundingBox()
     forbid_editing = ('true', 'false')[self.AllowEditMode()]
-- 
2.43.0


From dc2c9bd58727c789b2382ff2f4a0154279809b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 22/49] fix: sort trips by their start time in
 SortListOfTripByTime

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 2601ff9..aa8cf32 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -770,4 +770,4 @@ class Trip(GtfsObjectBase):
 
 
 def SortListOfTripByTime(trips):
-  trips.sort(key=GetStartTime)
+  trips.sort(key=lambda trip: trip.GetStartTime())
-- 
2.43.0


From 0c9e43ea2ca7373362503374301da6b01e1d059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 23/49] fix: list the values of a route in routerow requests

---
 schedule_viewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index f9a18fb..5e0dd0c 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -279,7 +279,8 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def handle_json_GET_routerow(self, params):
     schedule = self.server.schedule
     route = schedule.GetRoute(params.get('route', None))
-    return [transitfeed.Route._FIELD_NAMES, route.GetFieldValuesTuple()]
+    return [transitfeed.Route._FIELD_NAMES,
+            [getattr(route, fn) for fn in transitfeed.Route._FIELD_NAMES]]
 
   def handle_json_GET_triprows(self, params):
     """Return a list of rows from the feed file that are related to this
-- 
2.43.0


From 55cd43b3e79b6db1da21384818059ce90d8acd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:42 +0000
Subject: [PATCH 24/49] fix: count only trips of the given date towards the
 next five at a stop

---
 schedule_viewer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 5e0dd0c..22cd03c 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -379,14 +379,15 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     # Keep the first 5 after param 'time'.
     # Need make a tuple to find correct bisect point
     time_trips = time_trips[bisect.bisect_left(time_trips, (time, 0)):]
+    if date:
+      # Only count trips that run on the given date
+      time_trips = [
+          (secs, (trip, index), tp) for secs, (trip, index), tp in time_trips
+          if schedule.GetServicePeriod(trip.service_id).IsActiveOn(date)]
     time_trips = time_trips[:5]
     # TODO: combine times for a route to show next 2 departure times
     result = []
     for time, (trip, index), tp in time_trips:
-      service_id = trip.service_id
-      service_period = schedule.GetServicePeriod(service_id)
-      if date and not service_period.IsActiveOn(date):
-        continue
       headsign = None
       # Find the most recent headsign from the StopTime objects
       for stoptime in trip.GetStopTimes()[index::-1]:
-- 
2.43.0


From 70ec2850e7f0c5fa72681c5a3b73caca8e57fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:22 +0000
Subject: [PATCH 25/49] fix: read the right times in MareyGraph._TravelTimes

---
 gtfsscheduleviewer/marey_graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index 8113696..34a6fbd 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -275,7 +275,9 @@ class MareyGraph:
     """
 
     def DistanceInTravelTime(dep_secs, arr_secs):
-      t_dist = arr_secs-dep_secs
+      t_dist = -1
+      if arr_secs is not None and dep_secs is not None:
+        t_dist = arr_secs-dep_secs
       if t_dist<0:
         t_dist = self._DUMMY_SEPARATOR # min separation
       return t_dist
@@ -288,7 +290,7 @@ class MareyGraph:
     else:
       trip = triplist[0]
 
-    t_dists2 = [DistanceInTravelTime(stop[3],tail[2]) for (stop,tail)
+    t_dists2 = [DistanceInTravelTime(stop[1],tail[0]) for (stop,tail)
                  in itertools.izip(trip.GetTimeStops(),trip.GetTimeStops()[1:])]
     return t_dists2
 
-- 
2.43.0


From fdde013828a840393d9cf4301ed5f712e9afd3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:22 +0000
Subject: [PATCH 26/49] fix: let AddStationDecoration highlight the first
 station

---
 gtfsscheduleviewer/marey_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index 34a6fbd..db6a28b 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -412,7 +412,7 @@ class MareyGraph:
     num_stations = len(self._stations)
     ind = int(index)
     if self._stations:
-      if 0<ind<num_stations:
+      if 0<=ind<num_stations:
         y = self._stations[ind]
         tmpstr = '<polyline class="Dec" stroke="%s" points="%s,%s,%s,%s" />' \
           % (color, 20, 20+y+.5, self._gwidth+20, 20+y+.5)
-- 
2.43.0


From 2b79eeed1ac036387fb051712b1da18b9e13dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:41 +0000
Subject: [PATCH 27/49] fix: quote DOT keywords and escape backslashes in
 pathway graphs

---
 visualize_pathways.py | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 8cb93d1..a58b5dd 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -200,13 +200,29 @@ class GtfsReader(object):
         return entities
 
 
-_VALID_GRAPHVIZ_ID = re.compile(r'^[A-Za-z_][A-Za-z0-9_]+$')
+_VALID_GRAPHVIZ_ID = re.compile(r'^[A-Za-z_][A-Za-z0-9_]+\Z')
+
+# Words of the DOT language (in any case) are identifiers only when quoted.
+_GRAPHVIZ_KEYWORDS = frozenset([
+    'digraph', 'edge', 'graph', 'node', 'strict', 'subgraph'])
+
+
+def escape_graphviz_text(text):
+    """Escapes backslashes, so that GraphViz shows the text as it is."""
+    return text.replace('\\', r'\\')
+
+
+def quote_graphviz(text):
+    """Quotes text unless it is a plain identifier. Backslashes in the text
+    are GraphViz escapes such as the line break in a label."""
+    if (_VALID_GRAPHVIZ_ID.match(text) and
+            text.lower() not in _GRAPHVIZ_KEYWORDS):
+        return text
+    return '"%s"' % text.replace('"', r'\"')
 
 
 def escape_graphviz_id(gtfs_id):
-    if _VALID_GRAPHVIZ_ID.match(gtfs_id):
-        return gtfs_id
-    return '"%s"' % gtfs_id.replace('"', r'\"')
+    return quote_graphviz(escape_graphviz_text(gtfs_id))
 
 
 def truncate_string(s, max_length=20):
@@ -227,7 +243,7 @@ class Attributes(object):
 
     def __str__(self):
         return ' '.join(
-            '%s=%s' % (k, escape_graphviz_id(v))
+            '%s=%s' % (k, quote_graphviz(v))
             for k, v in sorted(self.attributes.items())
             if v is not None)
 
@@ -359,22 +375,26 @@ def location_shape(location_type):
 
 
 def location_label(location, max_length=20):
-    label = location.gtfs_id
+    label = escape_graphviz_text(location.gtfs_id)
     if location.platform_code:
-        label += '\\nPlatform %s' % location.platform_code
+        label += '\\nPlatform %s' % escape_graphviz_text(
+            location.platform_code)
     elif location.signposted_as:
-        label += '\\n%s' % location.signposted_as
+        label += '\\n%s' % escape_graphviz_text(location.signposted_as)
     elif location.name:
-        label += '\\n%s' % truncate_string(location.name, max_length)
+        label += '\\n%s' % escape_graphviz_text(
+            truncate_string(location.name, max_length))
     return label
 
 
 def pathway_label(pathway):
     label = pathway.mode.name
     if pathway.signposted_as:
-        label += '\\n%s' % truncate_string(pathway.signposted_as)
+        label += '\\n%s' % escape_graphviz_text(
+            truncate_string(pathway.signposted_as))
     if pathway.reversed_signposted_as:
-        label += '\\n%s' % truncate_string(pathway.reversed_signposted_as)
+        label += '\\n%s' % escape_graphviz_text(
+            truncate_string(pathway.reversed_signposted_as))
     return label
 
 
-- 
2.43.0


From e37f829e83f509d99bc64bab53a44fd0a020c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:47 +0000
Subject: [PATCH 28/49] fix: check all variants, extlangs and extensions of a
 language tag

---
 extensions/googletransit/extension_util.py    |  6 ++--
 .../pybcp47/bcp47languageparser.py            | 33 ++++++++++++++++---
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/extensions/googletransit/extension_util.py b/extensions/googletransit/extension_util.py
index 7f93bbc..c3b2bab 100644
--- a/extensions/googletransit/extension_util.py
+++ b/extensions/googletransit/extension_util.py
@@ -27,8 +27,8 @@ def IsValidLanguageCode(lang):
     - checks whether the code, as lower case, is well formed and valid BCP47
       using the pybcp47 module
   """
-  bcp47_obj = parser.ParseLanguage(str(lang.lower()))
-  return bcp47_obj.IsWellformed() and bcp47_obj.IsValid()
+  bcp47_obj = parser.ParseLanguage(lang.lower())
+  return bcp47_obj.wellformed and bcp47_obj.valid
 
 def ValidateLanguageCode(lang, column_name=None, problems=None):
   """
@@ -43,7 +43,7 @@ def ValidateLanguageCode(lang, column_name=None, problems=None):
   """
   if util.IsEmpty(lang):
     return True
-  bcp47_obj = parser.ParseLanguage(str(lang.lower()))
+  bcp47_obj = parser.ParseLanguage(lang.lower())
   if not bcp47_obj.wellformed:
     if problems:
       problems.InvalidValue(column_name, lang,
diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index 289dff2..df33814 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -231,7 +231,7 @@ class Bcp47LanguageParser(object):
 
   # Private subtag consisting of the subtag "x" followed by 1..n subtags of
   # 1 to 8 characters.
-  _wellformed_dict['private'] = "x(-([a-zA-Z0-9]{1,8}))+"
+  _wellformed_dict['private'] = "[xX](-([a-zA-Z0-9]{1,8}))+"
 
   # Full BCP-47 wellformed regular expression.
   _wellformed_bcp47 = re.compile(
@@ -301,6 +301,13 @@ class Bcp47LanguageParser(object):
         return lang_obj.Update("unknown extlang \'" + extlang_tag + "\'",
                               True, False)
       lang_code_part_idx = lang_code_part_idx + 1
+      if (lang_code_part_idx < lang_code_part_len and
+          self.IsWellformedSubtag(lang_code_parts[lang_code_part_idx],
+                                  "extlang")):
+        # RFC 5646 reserves the second and third extlang permanently.
+        return lang_obj.Update("unknown extlang \'" +
+                               lang_code_parts[lang_code_part_idx] + "\'",
+                               True, False)
 
     if lang_code_part_idx == lang_code_part_len:
       return lang_obj.Update(None, True, True)
@@ -329,15 +336,33 @@ class Bcp47LanguageParser(object):
     if lang_code_part_idx == lang_code_part_len:
       return lang_obj.Update(None, True, True)
 
-    variant_tag = lang_code_parts[lang_code_part_idx]
-    if self.IsWellformedSubtag(variant_tag, "variant"):
+    variant_tags = []
+    while lang_code_part_idx < lang_code_part_len:
+      variant_tag = lang_code_parts[lang_code_part_idx]
+      if not self.IsWellformedSubtag(variant_tag, "variant"):
+        break
+      if variant_tag in variant_tags:
+        return lang_obj.Update("duplicate variant \'" + variant_tag + "\'",
+                               True, False)
       if variant_tag in self.variants:
         lang_obj.descriptions.append(self.variants[variant_tag])
       else:
         return lang_obj.Update("unknown variant \'" + variant_tag + "\'",
-                              True, False)
+                               True, False)
+      variant_tags.append(variant_tag)
       lang_code_part_idx = lang_code_part_idx + 1
 
+    singletons = []
+    for extension_tag in lang_code_parts[lang_code_part_idx:]:
+      if extension_tag == 'x':
+        # Everything from here on is for private use.
+        break
+      if len(extension_tag) == 1:
+        if extension_tag in singletons:
+          return lang_obj.Update("duplicate extension \'" + extension_tag +
+                                 "\'", True, False)
+        singletons.append(extension_tag)
+
     if lang_code_part_len > lang_code_part_idx:
       remainder = "-".join(lang_code_parts[lang_code_part_idx:])
       if len(remainder) > 0:
-- 
2.43.0


From 3386686f260d9f2a9cdaed4210f1a6d4aaeac700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:10 +0000
Subject: [PATCH 29/49] fix: do not announce a version numerically equal to the
 running one

---
 transitfeed/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 1fea2dc..afe9da6 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -220,7 +220,7 @@ def CheckVersion(problems, latest_version=None):
       description=description, type=errors.TYPE_NOTICE)
     return
 
-  newest_version = _MaxVersion([latest_version, __version__])
+  newest_version = _MaxVersion([__version__, latest_version])
   if __version__ != newest_version:
     problems.NewVersionAvailable(newest_version)
 
-- 
2.43.0


From 9a050fc146c21e7c3ab3d829ce2023bf4f62a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:07 +0000
Subject: [PATCH 30/49] fix: check stops at latitude or longitude zero for
 distance

---
 transitfeed/schedule.py | 3 ++-
 transitfeed/trip.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index fd6668f..caf2848 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1032,7 +1032,8 @@ class Schedule(object):
     # each pair of stations within 2 meters latitude of each other. This avoids
     # doing n^2 comparisons in the average case and doesn't need a spatial
     # index.
-    sorted_stops = filter(lambda s: s.stop_lat and s.stop_lon,
+    sorted_stops = filter(lambda s: (not util.IsEmpty(s.stop_lat) and
+                                     not util.IsEmpty(s.stop_lon)),
                           self.GetStopList())
     sorted_stops.sort(
         key=(lambda x: [x.stop_lat, x.stop_lon, getattr(x, 'stop_id', None)]))
diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index aa8cf32..ded8526 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -680,7 +680,8 @@ class Trip(GtfsObjectBase):
             pt = shape.GetPointWithDistanceTraveled(st.shape_dist_traveled)
             if pt:
               stop = self._schedule.GetStop(st.stop_id)
-              if stop.stop_lat and stop.stop_lon:
+              if (not util.IsEmpty(stop.stop_lat) and
+                  not util.IsEmpty(stop.stop_lon)):
                 distance = util.ApproximateDistance(stop.stop_lat,
                                                     stop.stop_lon,
                                                     pt[0], pt[1])
-- 
2.43.0


From ddd08b15a3501e5b840d602f45a1c8353c0a255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 31/49] fix: load every mapped file even when loading orders
 are equal

---
 transitfeed/gtfsfactory.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transitfeed/gtfsfactory.py b/transitfeed/gtfsfactory.py
index 76528b0..cb3b0df 100644
--- a/transitfeed/gtfsfactory.py
+++ b/transitfeed/gtfsfactory.py
@@ -127,12 +127,12 @@ class GtfsFactory(object):
   def GetLoadingOrder(self):
     """Returns a list of filenames sorted by loading order.
     Only includes files that Loader's standardized loading knows how to load"""
-    result = {}
+    result = []
     for filename, mapping in self._file_mapping.iteritems():
       loading_order = mapping['loading_order']
       if loading_order is not None:
-        result[loading_order] = filename
-    return list(result[key] for key in sorted(result))
+        result.append((loading_order, filename))
+    return [filename for _, filename in sorted(result)]
 
   def IsFileRequired(self, filename):
     """Returns true if a file is required by GTFS, false otherwise.
@@ -171,7 +171,8 @@ class GtfsFactory(object):
         raise problems.InvalidMapping(field)
     if filename in self.GetKnownFilenames():
       raise problems.DuplicateMapping(filename)
-    self._file_mapping[filename] = new_mapping
+    # A copy, as UpdateMapping changes it and the caller may use it again.
+    self._file_mapping[filename] = dict(new_mapping)
 
   def UpdateMapping(self, filename, mapping_update):
     """Updates an entry in the list of known filenames.
-- 
2.43.0


From 0963d6490b6631ed3802ae23003bf730664dda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:06 +0000
Subject: [PATCH 32/49] fix: accept a feed_info record giving only one of its
 dates

---
 transitfeed/feedinfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/feedinfo.py b/transitfeed/feedinfo.py
index a936d9d..d70031b 100644
--- a/transitfeed/feedinfo.py
+++ b/transitfeed/feedinfo.py
@@ -51,6 +51,8 @@ class FeedInfo(transitfeed.GtfsObjectBase):
                                                 'feed_end_date', problems)
 
     if (start_date_valid and end_date_valid and
+        not transitfeed.IsEmpty(self.feed_start_date) and
+        not transitfeed.IsEmpty(self.feed_end_date) and
         self.feed_end_date < self.feed_start_date):
         problems.InvalidValue('feed_end_date', self.feed_end_date,
                               'feed_end_date %s is earlier than '
-- 
2.43.0


From a7166c2281b9053f832bd22a45bc68ec18ef4d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:19 +0000
Subject: [PATCH 33/49] fix: do not leave the context of a rejected record
 behind

---
 transitfeed/loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 7679ceb..47eed63 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -418,6 +418,7 @@ class Loader:
           instance = object_class(field_dict=d)
           instance.SetGtfsFactory(self._gtfs_factory)
           if not instance.ValidateBeforeAdd(self._problems):
+            self._problems.ClearContext()
             continue
           instance.AddToSchedule(self._schedule, self._problems)
           instance.ValidateAfterAdd(self._problems)
@@ -508,6 +509,7 @@ class Loader:
 
       shapepoint = self._gtfs_factory.ShapePoint(field_dict=d)
       if not shapepoint.ParseAttributes(self._problems):
+        self._problems.ClearContext()
         continue
 
       if shapepoint.shape_id in shapes:
@@ -543,6 +545,7 @@ class Loader:
       except (TypeError, ValueError):
         self._problems.InvalidValue('stop_sequence', stop_sequence,
                                     'This should be a number.')
+        self._problems.ClearContext()
         continue
       if sequence < 0:
         self._problems.InvalidValue('stop_sequence', sequence,
@@ -551,11 +554,13 @@ class Loader:
       if stop_id not in self._schedule.stops:
         self._problems.InvalidValue('stop_id', stop_id,
                                     'This value wasn\'t defined in stops.txt')
+        self._problems.ClearContext()
         continue
       stop = self._schedule.stops[stop_id]
       if trip_id not in self._schedule.trips:
         self._problems.InvalidValue('trip_id', trip_id,
                                     'This value wasn\'t defined in trips.txt')
+        self._problems.ClearContext()
         continue
       trip = self._schedule.trips[trip_id]
 
-- 
2.43.0


From 3b00d7a6f0b545f6cb28546c41bcaf2a5d1bf5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:19 +0000
Subject: [PATCH 34/49] fix: report a malformed exception date at its
 calendar_dates row

---
 transitfeed/serviceperiod.py | 2 +-
 transitfeed/util.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/serviceperiod.py b/transitfeed/serviceperiod.py
index 7098f54..58c2281 100755
--- a/transitfeed/serviceperiod.py
+++ b/transitfeed/serviceperiod.py
@@ -324,7 +324,7 @@ class ServicePeriod(object):
     if util.IsEmpty(date):
       problems.MissingValue(field_name, date, context)
       return False
-    elif not util.ValidateDate(date, field_name, problems):
+    elif not util.ValidateDate(date, field_name, problems, context):
       return False
     else:
       try:
diff --git a/transitfeed/util.py b/transitfeed/util.py
index afe9da6..2c1fcf6 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -352,7 +352,7 @@ def IsValidDate(date):
   """
   return DateStringToDateObject(date) is not None
 
-def ValidateDate(date, column_name=None, problems=None):
+def ValidateDate(date, column_name=None, problems=None, context=None):
   """
   Validates a non-required date string value using IsValidDate():
     - if invalid adds InvalidValue error (if problems accumulator is provided)
@@ -363,7 +363,7 @@ def ValidateDate(date, column_name=None, problems=None):
     return True
   else:
     if problems:
-      problems.InvalidValue(column_name, date)
+      problems.InvalidValue(column_name, date, context=context)
     return False
 
 def ValidateRequiredFieldsAreNotEmpty(gtfs_object, required_field_names,
-- 
2.43.0


From e5ebe3c89f20cc14f95dcc580559f2e585eb460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:28 +0000
Subject: [PATCH 35/49] fix: forget a trip pattern when its stop times change

---
 transitfeed/trip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index ded8526..c0448dd 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -87,6 +87,7 @@ class Trip(GtfsObjectBase):
     cursor = schedule._connection.cursor()
     cursor.execute(
         insert_query, stoptime.GetSqlValuesTuple(self.trip_id))
+    self.__dict__.pop('_pattern_id', None)
 
   def ReplaceStopTimeObject(self, stoptime, schedule=None):
     """Replace a StopTime object from this trip with the given one.
@@ -227,6 +228,7 @@ class Trip(GtfsObjectBase):
     """
     cursor = self._schedule._connection.cursor()
     cursor.execute('DELETE FROM stop_times WHERE trip_id=?', (self.trip_id,))
+    self.__dict__.pop('_pattern_id', None)
 
   def GetStopTimes(self, problems=None):
     """Return a sorted list of StopTime objects for this trip."""
-- 
2.43.0


From 8663d79bda5e4897a1ec9a37092508779a70e703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:58 +0000
Subject: [PATCH 36/49] fix: do not interpolate between shape points of unknown
 distance

---
 transitfeed/shape.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 1ccada3..5d63a65 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -140,9 +140,10 @@ class Shape(GtfsFactoryUser):
       The shape point as a tuple (lat, lng, shape_dist_traveled), where lat and
       lng is the location of the shape point, and shape_dist_traveled is an
       increasing metric representing the distance traveled along the shape.
-      Returns None if there is data error in shape.
+      Returns None if there is data error in shape or the distances around
+      shape_dist_traveled are not known.
     """
-    if not self.distance:
+    if not self.distance or self.distance[-1] is None:
       return None
     if shape_dist_traveled <= self.distance[0]:
       return self.points[0]
@@ -152,6 +153,8 @@ class Shape(GtfsFactoryUser):
     index = bisect.bisect(self.distance, shape_dist_traveled)
     (lat0, lng0, dist0) = self.points[index - 1]
     (lat1, lng1, dist1) = self.points[index]
+    if dist0 is None or dist1 is None:
+      return None
 
     # Interpolate if shape_dist_traveled does not equal to any of the point
     # in shape segment.
-- 
2.43.0


From 661a759994621b993dd8a240dc721fb9bb593cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:58 +0000
Subject: [PATCH 37/49] fix: do not judge the walking speed between stops
 without location

---
 transitfeed/transfer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/transfer.py b/transitfeed/transfer.py
index ddcd8b2..41fe89b 100755
--- a/transitfeed/transfer.py
+++ b/transitfeed/transfer.py
@@ -154,6 +154,9 @@ class Transfer(GtfsObjectBase):
       return
 
     distance = self.GetTransferDistance()
+    if distance is None:
+      # At least one of the stops has no usable location.
+      return
     # If min_transfer_time + 120s isn't enough for someone walking very fast
     # (2m/s) then issue a warning.
     #
-- 
2.43.0


From 98ca3256d7848f07fa8ed4118d4e7bbb59273614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:23 +0000
Subject: [PATCH 38/49] fix: do not take nan or infinite texts for numbers

---
 transitfeed/fareattribute.py |  2 +-
 transitfeed/stoptime.py      |  2 +-
 transitfeed/util.py          | 10 +++++++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/transitfeed/fareattribute.py b/transitfeed/fareattribute.py
index 712031d..3f0021c 100755
--- a/transitfeed/fareattribute.py
+++ b/transitfeed/fareattribute.py
@@ -47,7 +47,7 @@ class FareAttribute(GtfsObjectBase):
     self.rules = []
 
     try:
-      self.price = float(self.price)
+      self.price = util.FiniteFloat(self.price)
     except (TypeError, ValueError):
       pass
     try:
diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index c97aa64..bddc4ea 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -155,7 +155,7 @@ class StopTime(object):
       self.shape_dist_traveled = None
     else:
       try:
-        self.shape_dist_traveled = float(shape_dist_traveled)
+        self.shape_dist_traveled = util.FiniteFloat(shape_dist_traveled)
       except ValueError:
         problems.InvalidValue('shape_dist_traveled', shape_dist_traveled)
 
diff --git a/transitfeed/util.py b/transitfeed/util.py
index 2c1fcf6..c97fab7 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -481,12 +481,20 @@ def DateStringToDateObject(date_string):
   except ValueError:
     return None
 
+def FiniteFloat(value):
+  """Convert value to a float or raise an exception. Python also converts
+  texts like "nan", "inf" and "1e999", but they are no numbers."""
+  parsed_value = float(value)
+  if math.isnan(parsed_value) or math.isinf(parsed_value):
+    raise ValueError("not a finite number: %s" % value)
+  return parsed_value
+
 def FloatStringToFloat(float_string, problems=None):
   """Convert a float as a string to a float or raise an exception"""
   # Will raise TypeError unless a string
   match = re.match(r"^[+-]?\d+(\.\d+)?$", float_string)
   # Will raise TypeError if the string can't be parsed
-  parsed_value = float(float_string)
+  parsed_value = FiniteFloat(float_string)
 
   if "x" in float_string:
     # This is needed because Python 2.4 does not complain about float("0x20").
-- 
2.43.0


From ddebb9400407cfd0ab148fb1eeb933ff457a860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:32 +0000
Subject: [PATCH 39/49] fix: answer about an unknown stop in the location
 editor

---
 location_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/location_editor.py b/location_editor.py
index e3833bc..f768d13 100755
--- a/location_editor.py
+++ b/location_editor.py
@@ -32,9 +32,9 @@ class LocationEditorRequestHandler(schedule_viewer.ScheduleRequestHandler):
     stop_id = params.get('id', None)
     lat = params.get('lat', -1)
     lon = params.get('lng', -1)
-    stop = schedule.GetStop(stop_id)
+    stop = schedule.stops.get(stop_id)
     if (stop is None):
-      msg = 'Stop with id=' + stop_id + 'not found.'
+      msg = 'Stop with id=%s not found.' % stop_id
     else:
       stop.stop_lat = float(lat)
       stop.stop_lon = float(lon)
-- 
2.43.0


From 9241812c4c0809507048568c0ad70f42a8c253ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:29 +0000
Subject: [PATCH 40/49] fix: report the vehicle type itself, also for trams at
 entrances and child stops

---
 extensions/googletransit/stop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index e921074..36d001e 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -37,12 +37,12 @@ class Stop(transitfeed.Stop):
         'vehicle_type', problems)
     # Entrances must not have a vehicle type, in general google transit does not
     # read vehicle types from stops with a parent station.
-    if self.vehicle_type:
+    if self.vehicle_type is not None:
       if self.location_type == 2:
-        problems.InvalidValue('vehicle_type', self.location_type,
+        problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='an entrance must not have a vehicle type')
       elif not util.IsEmpty(self.parent_station):
-        problems.InvalidValue('vehicle_type', self.location_type,
+        problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='Google Transit does not read vehicle types for stops '
               'having a parent station', type=problems_module.TYPE_WARNING)
 
-- 
2.43.0


From 88a707dc770b9989da3668fd7795a3c877bd080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:29 +0000
Subject: [PATCH 41/49] fix: report the location type of a nameless stop once

---
 extensions/googletransit/stop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index 36d001e..3e75dc8 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -67,8 +67,9 @@ class Stop(transitfeed.Stop):
   def _ReportMissingRequiredField(self, problems, required):
     if required == 'stop_name':
       # stops of type 2 (entrance) may have an empty stop_name
-      self.ValidateStopLocationType(problems)
-      if self.location_type == 2:
+      # location_type itself is validated later on, so don't report it here.
+      if util.ValidateAndReturnIntValue(
+          self.location_type, [0, 1, 2], 0, True) == 2:
         return
     problems.MissingValue(required)
     setattr(self, required, None)
-- 
2.43.0


From 5e4f92dd96b5d2fc6202394d752823694cdfedc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:29 +0000
Subject: [PATCH 42/49] fix: accept a blank agency of a fare when there is one
 agency

---
 extensions/googletransit/fareattribute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/googletransit/fareattribute.py b/extensions/googletransit/fareattribute.py
index 397f3ba..22e0d48 100644
--- a/extensions/googletransit/fareattribute.py
+++ b/extensions/googletransit/fareattribute.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import transitfeed
+import transitfeed.util as util
 
 class FareAttribute(transitfeed.FareAttribute):
   """Extension of transitfeed.FareAttribute:
@@ -31,7 +32,7 @@ class FareAttribute(transitfeed.FareAttribute):
     for agency in agencies:
       if agency.agency_id == self.agency_id:
         return
-    if len(agencies) > 1 or self.agency_id is not None:
+    if len(agencies) > 1 or not util.IsEmpty(self.agency_id):
       # If there is only one agency and Fare.agencyid is empty or not present
       # then it isn't an error
       problems.InvalidAgencyID('agency_id', self.agency_id,
-- 
2.43.0


From 600af2437941ee2ab2a94e9917978bf152098522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:29 +0000
Subject: [PATCH 43/49] fix: reject nan and inf as co2_per_km

---
 extensions/googletransit/route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/googletransit/route.py b/extensions/googletransit/route.py
index 04cfdfc..c69e023 100644
--- a/extensions/googletransit/route.py
+++ b/extensions/googletransit/route.py
@@ -81,7 +81,7 @@ class Route(transitfeed.Route):
   def ValidateCo2PerKm(self, problems):
     if not util.IsEmpty(self.co2_per_km):
       try:
-        self.co2_per_km = float(self.co2_per_km)
+        self.co2_per_km = util.FiniteFloat(self.co2_per_km)
       except ValueError:
         problems.InvalidValue('co2_per_km', self.co2_per_km)
 
-- 
2.43.0


From f110ecd556fc2e05266e1401f6dcd1d3764210f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:43 +0000
Subject: [PATCH 44/49] fix: escape feed text in the HTML reports

---
 feedvalidator.py    | 21 ++++++++++++++-------
 merge.py            | 14 +++++++++-----
 transitfeed/util.py | 11 +++++++++++
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/feedvalidator.py b/feedvalidator.py
index 06de811..2e90369 100755
--- a/feedvalidator.py
+++ b/feedvalidator.py
@@ -298,6 +298,8 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
   def FormatException(self, e, output):
     """Append HTML version of e to list output."""
     d = e.GetDictToFormat()
+    for k in d.keys():
+      d[k] = transitfeed.EscapeHtml(d[k])
     for k in ('file_name', 'feedname', 'column_name'):
       if k in d.keys():
         d[k] = '<code>%s</code>' % d[k]
@@ -317,7 +319,8 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
       else:
         line_str = ''
       output.append('in %s<code>%s</code><br>\n' %
-                    (line_str, transitfeed.EncodeUnicode(e.file_name)))
+                    (line_str, transitfeed.EncodeUnicode(
+                        transitfeed.EscapeHtml(e.file_name))))
       row = e.row
       headers = e.headers
       column_name = e.column_name
@@ -327,8 +330,10 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
         attributes = ''
         if header == column_name:
           attributes = ' class="problem"'
-        table_header += '<th%s>%s</th>' % (attributes, header)
-        table_data += '<td%s>%s</td>' % (attributes, value)
+        table_header += '<th%s>%s</th>' % (
+            attributes, transitfeed.EscapeHtml(header))
+        table_data += '<td%s>%s</td>' % (
+            attributes, transitfeed.EscapeHtml(value))
       # Make sure output is encoded into UTF-8
       output.append('<table class="dump"><tr>%s</tr>\n' %
                     transitfeed.EncodeUnicode(table_header))
@@ -385,7 +390,9 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
     basename = os.path.basename(feed_location)
     feed_path = (feed_location[:feed_location.rfind(basename)], basename)
 
-    agencies = ', '.join(['<a href="%s">%s</a>' % (a.agency_url, a.agency_name)
+    agencies = ', '.join(['<a href="%s">%s</a>' %
+                          (transitfeed.EscapeHtml(a.agency_url),
+                           transitfeed.EscapeHtml(a.agency_name))
                           for a in schedule.GetAgencyList()])
     if not agencies:
       agencies = '?'
@@ -460,8 +467,8 @@ FeedValidator extension used: %(extension)s
 <br>
 %(problem_summary)s
 <br><br>
-""" % { "feed_file": feed_path[1],
-        "feed_dir": feed_path[0],
+""" % { "feed_file": transitfeed.EscapeHtml(feed_path[1]),
+        "feed_dir": transitfeed.EscapeHtml(feed_path[0]),
         "agencies": agencies,
         "routes": len(schedule.GetRouteList()),
         "stops": len(schedule.GetStopList()),
@@ -470,7 +477,7 @@ FeedValidator extension used: %(extension)s
         "dates": dates,
         "problem_summary": summary,
         "calendar_summary": calendar_summary_html,
-        "extension": extension}
+        "extension": transitfeed.EscapeHtml(extension)}
 
 # In output_suffix string
 # time.strftime() returns a regular local time string (not a Unicode one) with
diff --git a/merge.py b/merge.py
index 251b956..0bf406b 100755
--- a/merge.py
+++ b/merge.py
@@ -185,8 +185,8 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
       dataset_problems = self._dataset_errors
       self._error_count += 1
 
-    problem_html = '<li>%s</li>' % (
-        merge_problem.FormatProblem().replace('\n', '<br>'))
+    problem_html = '<li>%s</li>' % (transitfeed.EscapeHtml(
+        merge_problem.FormatProblem()).replace('\n', '<br>'))
     dataset_problems.setdefault(merge_problem.dataset_merger, []).append(
         problem_html)
 
@@ -271,6 +271,8 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
     items = []
     for e in self._notices:
       d = e.GetDictToFormat()
+      for k in d.keys():
+        d[k] = transitfeed.EscapeHtml(d[k])
       if 'url' in d.keys():
         d['url'] = '<a href="%(url)s">%(url)s</a>' % d
       items.append('<li class="notice">%s</li>' %
@@ -296,7 +298,9 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
       html_merged_feed_path = ''
     else:
       html_merged_feed_path = '<p>Merged feed created: <code>%s</code></p>' % (
-          merged_feed_path)
+          transitfeed.EscapeHtml(merged_feed_path))
+    html_old_feed_path = transitfeed.EscapeHtml(old_feed_path)
+    html_new_feed_path = transitfeed.EscapeHtml(new_feed_path)
 
     html_header = """<html>
 <head>
@@ -323,8 +327,8 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
 </head>
 <body>
 <h1>Feed merger results</h1>
-<p>Old feed: <code>%(old_feed_path)s</code></p>
-<p>New feed: <code>%(new_feed_path)s</code></p>
+<p>Old feed: <code>%(html_old_feed_path)s</code></p>
+<p>New feed: <code>%(html_new_feed_path)s</code></p>
 %(html_merged_feed_path)s""" % locals()
 
     html_stats = self._GenerateStatsTable(feed_merger)
diff --git a/transitfeed/util.py b/transitfeed/util.py
index c97fab7..3da3885 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -27,6 +27,7 @@ import socket
 import sys
 import time
 import urllib2
+from xml.sax import saxutils
 
 from . import errors
 from .version import __version__
@@ -244,6 +245,16 @@ def EncodeUnicode(text):
   else:
     return text
 
+def EscapeHtml(value):
+  """
+  Escape the characters of a text that have a meaning in HTML. A value that is
+  no text is returned as it is.
+  """
+  if isinstance(value, basestring):
+    return saxutils.escape(value, {'"': '&quot;'})
+  else:
+    return value
+
 def IsValidURL(url):
   """
   Checks the validity of a URL value:
-- 
2.43.0


From 600ec3cde2a89790c4e308b21ed412c979958ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:17 +0000
Subject: [PATCH 45/49] fix: list the start times of frequency runs in order

---
 transitfeed/trip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index c0448dd..b8088b3 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -346,6 +346,7 @@ class Trip(GtfsObjectBase):
         start_times.append(run_secs)
         # increment current run secs by headway secs
         run_secs += headway_secs
+    start_times.sort()
     return start_times
 
   def GetEndTime(self, problems=problems_module.default_problem_reporter):
-- 
2.43.0


From 3ee26a282fd48c8f41c07988a2e336c18a0614a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 46/49] fix: load the shapes of a zip archive

---
 transitfeed/shapeloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/shapeloader.py b/transitfeed/shapeloader.py
index cae8155..bfd233b 100755
--- a/transitfeed/shapeloader.py
+++ b/transitfeed/shapeloader.py
@@ -28,5 +28,8 @@ class ShapeLoader(Loader):
     Loader.__init__(self, *args, **kwargs)
 
   def Load(self):
+    if not self._DetermineFormat():
+      return self._schedule
+
     self._LoadShapes()
     return self._schedule
\ No newline at end of file
-- 
2.43.0


From f61866ff77d2ac86569ef9003715714132dfbc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 47/49] fix: import shapes without key columns

---
 shape_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape_importer.py b/shape_importer.py
index 8c12f19..9e3f661 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -286,6 +286,6 @@ if __name__ == '__main__':
       PrintColumns(arg)
     sys.exit(0)
 
-  key_cols = options.keycols.split(',')
+  key_cols = options.keycols and options.keycols.split(',')
 
   main(key_cols)
-- 
2.43.0


From 1caf401e734abcd136f91b0ef03645fb67f81794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 48/49] fix: skip trips without two stops when matching shapes

---
 shape_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shape_importer.py b/shape_importer.py
index 9e3f661..80b19a0 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -218,6 +218,8 @@ def main(key_cols):
     for pattern_id, trips in patterns.iteritems():
       pattern_count += 1
       pattern = trips[0].GetPattern()
+      if len(pattern) < 2:
+        continue
 
       poly_points = [shapelib.Point.FromLatLng(p.stop_lat, p.stop_lon)
                      for p in pattern]
-- 
2.43.0


From 27bad19a8dedab0c79c582286eac6115e9b609ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:08 +0000
Subject: [PATCH 49/49] fix: give imported shapes unused ids

---
 shape_importer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shape_importer.py b/shape_importer.py
index 80b19a0..170c0c5 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -206,6 +206,7 @@ def main(key_cols):
 
   print('Loading GTFS from %s...' % options.source_gtfs)
   schedule = transitfeed.Loader(options.source_gtfs).Load()
+  used_shape_ids = set(shape.shape_id for shape in schedule.GetShapeList())
   shape_count = 0
   pattern_count = 0
 
@@ -252,9 +253,13 @@ def main(key_cols):
                                      verbosity=verbosity)
       if shape_match:
         shape_count += 1
-        # Rename shape for readability.
+        # Rename shape for readability, with a name the feed does not use yet.
+        shape_number = shape_count
+        while "shape_%d" % shape_number in used_shape_ids:
+          shape_number += 1
         shape_match = shapelib.Poly(points=shape_match.GetPoints(),
-                                           name="shape_%d" % shape_count)
+                                           name="shape_%d" % shape_number)
+        used_shape_ids.add(shape_match.GetName())
         for trip in trips:
           try:
             shape = schedule.GetShape(shape_match.GetName())
-- 
2.43.0

