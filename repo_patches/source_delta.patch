From d3167aa33432662a0a24fb90711997c20f5164b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 01/94] fix: recompute a trip's pattern_id after its stop times
 change

---
 transitfeed/trip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index ae9b374..fdce44c 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -79,6 +79,7 @@ class Trip(GtfsObjectBase):
 
     The trip isn't checked for duplicate sequence numbers so it must be
     validated later."""
+    self.__dict__.pop('_pattern_id', None)  # computed from the old stop times
     stop_time_class = self.GetGtfsFactory().StopTime
     cursor = schedule._connection.cursor()
     insert_query = "INSERT INTO stop_times (%s) VALUES (%s);" % (
@@ -221,6 +222,7 @@ class Trip(GtfsObjectBase):
     StopTime objects previously returned by GetStopTimes are unchanged but are
     no longer associated with this trip.
     """
+    self.__dict__.pop('_pattern_id', None)  # computed from the old stop times
     cursor = self._schedule._connection.cursor()
     cursor.execute('DELETE FROM stop_times WHERE trip_id=?', (self.trip_id,))
 
-- 
2.43.0


From bbf186fbbcc8bd7255a6d0408013805b661c2069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:30 +0000
Subject: [PATCH 02/94] fix: interpolate times between timepoints at the same
 place without dividing by zero

---
 transitfeed/trip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index fdce44c..5a342ef 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -209,7 +209,11 @@ class Trip(GtfsObjectBase):
         rv.append( (st.GetTimeSecs(), st, True) )
       else:
         distance_traveled_between_timepoints += util.ApproximateDistanceBetweenStops(stoptimes[i-1].stop, st.stop)
-        distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        if distance_between_timepoints > 0:
+          distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        else:
+          # All stops up to the next timepoint are at the same place
+          distance_percent = 0
         total_time = next_timepoint.GetTimeSecs() - cur_timepoint.GetTimeSecs()
         time_estimate = distance_percent * total_time + cur_timepoint.GetTimeSecs()
         rv.append( (int(round(time_estimate)), st, False) )
-- 
2.43.0


From 06033b206fa6dacc9f4cc574396e43652d5a50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 03/94] fix: pass the right arguments on from the deprecated
 AddHeadwayPeriod(Object)

---
 transitfeed/trip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 5a342ef..015ecc4 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -387,7 +387,7 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequencyObject(frequency, problem_reporter)
+    self.AddFrequencyObject(headway_period, problem_reporter)
 
   def AddFrequencyObject(self, frequency, problem_reporter):
     """Add a Frequency object to this trip's list of Frequencies."""
@@ -404,7 +404,8 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequency(start_time, end_time, headway_secs, problem_reporter)
+    self.AddFrequency(start_time, end_time, headway_secs,
+                      problem_reporter=problem_reporter)
 
   def AddFrequency(self, start_time, end_time, headway_secs, exact_times=0,
       problem_reporter=problems_module.default_problem_reporter):
-- 
2.43.0


From e239bd72b4409c38b1dd0e5f081c1af1cb37ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 04/94] fix: return the start times of all headway periods
 sorted, as documented

---
 transitfeed/trip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 015ecc4..17fcdc3 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -346,6 +346,7 @@ class Trip(GtfsObjectBase):
         start_times.append(run_secs)
         # increment current run secs by headway secs
         run_secs += headway_secs
+    start_times.sort()
     return start_times
 
   def GetEndTime(self, problems=problems_module.default_problem_reporter):
-- 
2.43.0


From 3ad8fe6cb707cb2e5013ac62e4ec0654a09fffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:55 +0000
Subject: [PATCH 05/94] fix: GetFrequencyStopTimes without a problem reporter
 on a stop time that draws a warning

---
 transitfeed/trip.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 17fcdc3..1421ea6 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -277,6 +277,10 @@ class Trip(GtfsObjectBase):
       list.
     """
     stoptimes_list = [] # list of stoptime lists to be returned
+    if problems is None:
+      # TODO: delete this branch when StopTime.__init__ doesn't need a
+      # ProblemReporter
+      problems = problems_module.default_problem_reporter
     stoptime_pattern = self.GetStopTimes()
     first_secs = stoptime_pattern[0].arrival_secs # first time of the trip
     stoptime_class = self.GetGtfsFactory().StopTime
-- 
2.43.0


From 7edb194b90e8d1ab61a59846c10cfbf1cf252774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 06/94] fix: origins of the feed's first and last service date
 with a dateless service period

---
 transitfeed/schedule.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 69e8c30..626cbed 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -281,14 +281,15 @@ class Schedule(object):
     """
     period_list = self.GetServicePeriodList()
     ranges = [period.GetDateRange() for period in period_list]
-    starts = filter(lambda x: x, [item[0] for item in ranges])
-    ends = filter(lambda x: x, [item[1] for item in ranges])
+    # (date, index in period_list), without the periods that have no dates
+    starts = [(item[0], i) for i, item in enumerate(ranges) if item[0]]
+    ends = [(item[1], i) for i, item in enumerate(ranges) if item[1]]
 
     if not starts or not ends:
       return (None, None, None, None)
 
-    minvalue, minindex = min(itertools.izip(starts, itertools.count()))
-    maxvalue, maxindex = max(itertools.izip(ends, itertools.count()))
+    minvalue, minindex = min(starts)
+    maxvalue, maxindex = max(ends)
 
     minreason = (period_list[minindex].HasDateExceptionOn(minvalue) and
                  "earliest service exception date in calendar_dates.txt" or
-- 
2.43.0


From e74e86a6ec096542432e3c153bf853c8d2ccc73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 07/94] fix: a trip with an unknown service id ended the block
 overlap check of all trips

---
 transitfeed/schedule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 626cbed..88fc06b 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1250,14 +1250,14 @@ class Schedule(object):
             # full service period comparison
             if service_id_pair_key not in service_period_overlap_cache:
               
-              # If the trip references an unknown service id, then we bail,
-              # since we can't effectively determine block overlap and an
-              # error will have already been registered for the missing
+              # If the trip references an unknown service id, then we skip
+              # this pair, since we can't effectively determine block overlap
+              # and an error will have already been registered for the missing
               # service id.
               if trip_a.service_id not in self.service_periods:
-                return
+                continue
               if trip_b.service_id not in self.service_periods:
-                return
+                continue
 
               service_period_a = self.GetServicePeriod(trip_a.service_id)
               service_period_b = self.GetServicePeriod(trip_b.service_id)
-- 
2.43.0


From ae4b0498ceba5d5d11f749f45eb17bc2ca8e1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:16 +0000
Subject: [PATCH 08/94] fix: block overlap with a trip of no duration depended
 on the order of the trips

---
 transitfeed/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 88fc06b..d1fac1d 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1213,8 +1213,8 @@ class Schedule(object):
 
     for (block_id,trip_intervals) in trip_intervals_by_block_id.items():
 
-      # Sort trip intervals by min arrival time
-      trip_intervals.sort(key=(lambda x: x[1]))
+      # Sort trip intervals by min arrival time, empty intervals first
+      trip_intervals.sort(key=(lambda x: (x[1], x[2])))
 
       for xi in range(len(trip_intervals)):
         trip_interval_a = trip_intervals[xi]
-- 
2.43.0


From d778a2cf1191da5a8be0d2cec5d501d8a94337e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 09/94] fix: stops on the equator or the prime meridian were
 left out of the check for nearby stops

---
 transitfeed/schedule.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index d1fac1d..9e23e3d 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1030,8 +1030,9 @@ class Schedule(object):
     # each pair of stations within 2 meters latitude of each other. This avoids
     # doing n^2 comparisons in the average case and doesn't need a spatial
     # index.
-    sorted_stops = filter(lambda s: s.stop_lat and s.stop_lon,
-                          self.GetStopList())
+    sorted_stops = filter(
+        lambda s: s.stop_lat is not None and s.stop_lon is not None,
+        self.GetStopList())
     sorted_stops.sort(
         key=(lambda x: [x.stop_lat, x.stop_lon, getattr(x, 'stop_id', None)]))
     TWO_METERS_LAT = 0.000018
-- 
2.43.0


From 0bba2bcd6aac83a4673a43e27153943f6a901a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:59 +0000
Subject: [PATCH 10/94] fix: stops on the equator or the prime meridian were
 left out of the check of distances to the shape

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 1421ea6..41bbfef 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -686,7 +686,7 @@ class Trip(GtfsObjectBase):
             pt = shape.GetPointWithDistanceTraveled(st.shape_dist_traveled)
             if pt:
               stop = self._schedule.GetStop(st.stop_id)
-              if stop.stop_lat and stop.stop_lon:
+              if stop.stop_lat is not None and stop.stop_lon is not None:
                 distance = util.ApproximateDistance(stop.stop_lat,
                                                     stop.stop_lon,
                                                     pt[0], pt[1])
-- 
2.43.0


From deb752a4538cfa36bc9f4691ec0cc81f131abec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 11/94] fix: a fare's price of nan or infinity was accepted

---
 transitfeed/fareattribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/fareattribute.py b/transitfeed/fareattribute.py
index 712031d..888af96 100755
--- a/transitfeed/fareattribute.py
+++ b/transitfeed/fareattribute.py
@@ -109,7 +109,7 @@ class FareAttribute(GtfsObjectBase):
       problems.MissingValue("price")
     elif not isinstance(self.price, float) and not isinstance(self.price, int):
       problems.InvalidValue("price", self.price)
-    elif self.price < 0:
+    elif not 0 <= self.price < float("inf"):
       problems.InvalidValue("price", self.price)
 
   def ValidateCurrencyType(self, problems):
-- 
2.43.0


From 94c1a7d6a1536629e63b39af25134ebfccce115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 12/94] fix: validating a transfer with a minimum time at a
 stop without a location raised TypeError

---
 transitfeed/transfer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/transfer.py b/transitfeed/transfer.py
index ddcd8b2..2a1a1b5 100755
--- a/transitfeed/transfer.py
+++ b/transitfeed/transfer.py
@@ -154,6 +154,9 @@ class Transfer(GtfsObjectBase):
       return
 
     distance = self.GetTransferDistance()
+    if distance is None:
+      # The location of a stop is missing, which has already been reported.
+      return
     # If min_transfer_time + 120s isn't enough for someone walking very fast
     # (2m/s) then issue a warning.
     #
-- 
2.43.0


From 390ff5e962510c0a8c7a4f23ad256f8352a9098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 13/94] fix: report a duplicate transfer to the problem
 reporter passed to AddTransferObject

---
 transitfeed/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 9e23e3d..e69c716 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -557,9 +557,9 @@ class Schedule(object):
     transfer_id = transfer._ID()
 
     if transfer_id in self._transfers:
-      self.problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
-                                        transfer_id,
-                                        type=problems_module.TYPE_WARNING)
+      problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
+                                   transfer_id,
+                                   type=problems_module.TYPE_WARNING)
       # Duplicates are still added, while not prohibited by GTFS.
 
     transfer._schedule = weakref.proxy(self)  # See weakref comment at top
-- 
2.43.0


From a5c4dc3a70bfd541fd45a79753529fc6a0405dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 14/94] fix: Shape.ClearPoints left the distances and sequence
 numbers of the cleared points behind

---
 transitfeed/shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 35cfb20..34f0ac2 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -97,6 +97,9 @@ class Shape(GtfsFactoryUser):
 
   def ClearPoints(self):
     self.points = []
+    self.max_distance = 0
+    self.distance = []
+    self.sequence = []
 
   def __eq__(self, other):
     if not other:
-- 
2.43.0


From 8226e546bf47e456822f344e9ef9fd8e11453f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 15/94] fix: Shape.AddPoint did not append when sequence
 numbers are not 0, 1, 2, ...

---
 transitfeed/shape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 34f0ac2..c57cc66 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -46,8 +46,9 @@ class Shape(GtfsFactoryUser):
   def AddPoint(self, lat, lon, distance=None,
                problems=problems_module.default_problem_reporter):
     shapepoint_class = self.GetGtfsFactory().ShapePoint
+    sequence = self.sequence[-1] + 1 if self.sequence else 0
     shapepoint = shapepoint_class(
-        self.shape_id, lat, lon, len(self.sequence), distance)
+        self.shape_id, lat, lon, sequence, distance)
     if shapepoint.ParseAttributes(problems):
       self.AddShapePointObjectUnsorted(shapepoint, problems)
 
-- 
2.43.0


From 0563b6188f932ea162549ff4a45347b0eb6a1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 16/94] fix: adding a shape point with a distance before one
 without raised TypeError

---
 transitfeed/shape.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index c57cc66..8f2008c 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -70,6 +70,7 @@ class Shape(GtfsFactoryUser):
 
     if shapepoint.shape_dist_traveled is not None and len(self.sequence) > 0:
       if (index != len(self.sequence) and
+          self.distance[index] is not None and
           shapepoint.shape_dist_traveled > self.distance[index]):
         problems.InvalidValue('shape_dist_traveled',
                               shapepoint.shape_dist_traveled,
-- 
2.43.0


From eb63ee180369dd074b6e452773e2f7a59e8a3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 17/94] fix: locating a distance on a shape with missing
 distances raised TypeError or gave an unrelated point

---
 transitfeed/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 8f2008c..535ab3a 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -143,7 +143,7 @@ class Shape(GtfsFactoryUser):
       increasing metric representing the distance traveled along the shape.
       Returns None if there is data error in shape.
     """
-    if not self.distance:
+    if not self.distance or None in self.distance:
       return None
     if shape_dist_traveled <= self.distance[0]:
       return self.points[0]
-- 
2.43.0


From 2378c1eb9dadddabf0e173457326f9517053f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 18/94] fix: locating a distance on a shape given in whole
 numbers truncated the coordinates

---
 transitfeed/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 535ab3a..66a6e88 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -163,7 +163,7 @@ class Shape(GtfsFactoryUser):
     #       \----------------- ba ------------------/
     ca = shape_dist_traveled - dist0
     bc = dist1 - shape_dist_traveled
-    ba = bc + ca
+    ba = float(bc + ca)
     if ba == 0:
       # This only happens when there's data error in shapes and should have been
       # catched before. Check to avoid crash.
-- 
2.43.0


From c9a109509cda9ef2e161c20cd6dc9ddcaf950857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 19/94] fix: a shape point with a negative sequence number was
 reported but accepted

---
 transitfeed/shapepoint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/shapepoint.py b/transitfeed/shapepoint.py
index 867b3b5..ee3f25f 100644
--- a/transitfeed/shapepoint.py
+++ b/transitfeed/shapepoint.py
@@ -72,6 +72,7 @@ class ShapePoint(GtfsObjectBase):
       elif self.shape_pt_sequence < 0:
         problems.InvalidValue('shape_pt_sequence', self.shape_pt_sequence,
                               'Value should be a number (0 or higher)')
+        return
     except (TypeError, ValueError):
       problems.InvalidValue('shape_pt_sequence', self.shape_pt_sequence,
                             'Value should be a number (0 or higher)')
-- 
2.43.0


From e2f7f8f82235bbefa48dcca38db523b3f40acab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:37 +0000
Subject: [PATCH 20/94] fix: AddRoute raised AttributeError in a schedule with
 several agencies and no default

---
 transitfeed/schedule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index e69c716..657e52f 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -393,7 +393,9 @@ class Schedule(object):
       route_id = util.FindUniqueId(self.routes)
     route = self._gtfs_factory.Route(short_name=short_name, long_name=long_name,
                         route_type=route_type, route_id=route_id)
-    route.agency_id = self.GetDefaultAgency().agency_id
+    default_agency = self.GetDefaultAgency()
+    if default_agency is not None:
+      route.agency_id = default_agency.agency_id
     self.AddRouteObject(route)
     return route
 
-- 
2.43.0


From 107e728736af0d6af2e113a3d769ee048c57546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:50 +0000
Subject: [PATCH 21/94] fix: asking for the list of a kind of problem that did
 not occur made the feed invalid

---
 feedvalidator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/feedvalidator.py b/feedvalidator.py
index 06de811..b0dd5e2 100755
--- a/feedvalidator.py
+++ b/feedvalidator.py
@@ -214,6 +214,7 @@ class LimitPerTypeProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
 
   def __init__(self, limit_per_type, ignore_types=None):
     # {TYPE_WARNING: {"ClassName": BoundedProblemList()}}
+    self._limit_per_type = limit_per_type
     self._type_to_name_to_problist = {
       TYPE_WARNING: defaultdict(lambda: BoundedProblemList(limit_per_type)),
       TYPE_ERROR: defaultdict(lambda: BoundedProblemList(limit_per_type)),
@@ -243,7 +244,9 @@ class LimitPerTypeProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
 
   def ProblemList(self, problem_type, class_name):
     """Return the BoundedProblemList object for given type and class."""
-    return self._type_to_name_to_problist[problem_type][class_name]
+    # Looking at a list must not add an empty one to the map
+    return self._type_to_name_to_problist[problem_type].get(
+        class_name, BoundedProblemList(self._limit_per_type))
 
   def ProblemListMap(self, problem_type):
     """Return the map from class name to BoundedProblemList object."""
-- 
2.43.0


From 63f9532c7af00db81ecdcaabc1da2a7d4bed3552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:22 +0000
Subject: [PATCH 22/94] fix: the HTML report of a feed at a non-ASCII path, or
 with non-ASCII notices, with a non-ASCII agency name raised
 UnicodeDecodeError

---
 feedvalidator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/feedvalidator.py b/feedvalidator.py
index b0dd5e2..564e09e 100755
--- a/feedvalidator.py
+++ b/feedvalidator.py
@@ -385,11 +385,13 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
           self.FormatType("Notice", self.ProblemListMap(TYPE_NOTICE).items()) +
           summary)
 
+    feed_location = transitfeed.EncodeUnicode(feed_location)
     basename = os.path.basename(feed_location)
     feed_path = (feed_location[:feed_location.rfind(basename)], basename)
 
     agencies = ', '.join(['<a href="%s">%s</a>' % (a.agency_url, a.agency_name)
                           for a in schedule.GetAgencyList()])
+    agencies = transitfeed.EncodeUnicode(agencies)
     if not agencies:
       agencies = '?'
 
-- 
2.43.0


From 85f17d7bf9a7c9b25eb641ac8d572e4bee0bb6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:52 +0000
Subject: [PATCH 23/94] fix: times, dates, colours and numbers followed by a
 line break were accepted as well formed

---
 transitfeed/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 1fea2dc..33487a6 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -287,7 +287,7 @@ def IsValidHexColor(color):
   Checks the validity of a hex color value:
     - the color string must consist of 6 hexadecimal digits
   """
-  return not re.match('^[0-9a-fA-F]{6}$', color) == None
+  return not re.match(r'[0-9a-fA-F]{6}\Z', color) == None
 
 def IsValidLanguageCode(lang):
   """
@@ -459,7 +459,7 @@ def TimeToSecondsSinceMidnight(time_string):
 
   For example "01:02:03" returns 3723. The leading zero of the hours may be
   omitted. HH may be more than 23 if the time is on the following day."""
-  m = re.match(r'(\d{1,3}):([0-5]\d):([0-5]\d)$', time_string)
+  m = re.match(r'(\d{1,3}):([0-5]\d):([0-5]\d)\Z', time_string)
   # ignored: matching for leap seconds
   if not m:
     raise errors.Error('Bad HH:MM:SS "%s"' % time_string)
@@ -473,7 +473,7 @@ def FormatSecondsSinceMidnight(s):
 def DateStringToDateObject(date_string):
   """Return a date object for a string "YYYYMMDD"."""
   # If this becomes a bottleneck date objects could be cached
-  if re.match('^\d{8}$', date_string) == None:
+  if re.match(r'\d{8}\Z', date_string) == None:
     return None
   try:
     return datetime.date(int(date_string[0:4]), int(date_string[4:6]),
@@ -484,7 +484,7 @@ def DateStringToDateObject(date_string):
 def FloatStringToFloat(float_string, problems=None):
   """Convert a float as a string to a float or raise an exception"""
   # Will raise TypeError unless a string
-  match = re.match(r"^[+-]?\d+(\.\d+)?$", float_string)
+  match = re.match(r"[+-]?\d+(\.\d+)?\Z", float_string)
   # Will raise TypeError if the string can't be parsed
   parsed_value = float(float_string)
 
@@ -501,7 +501,7 @@ def FloatStringToFloat(float_string, problems=None):
 def NonNegIntStringToInt(int_string, problems=None):
   """Convert an non-negative integer string to an int or raise an exception"""
   # Will raise TypeError unless a string
-  match = re.match(r"^(?:0|[1-9]\d*)$", int_string)
+  match = re.match(r"(?:0|[1-9]\d*)\Z", int_string)
   # Will raise ValueError if the string can't be parsed
   parsed_value = int(int_string)
 
-- 
2.43.0


From 615403c174d6ad736f2aeca23ba003a4b4a78025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 24/94] fix: a feed_info with a start date and no end date was
 reported to end before it starts

---
 transitfeed/feedinfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/feedinfo.py b/transitfeed/feedinfo.py
index a936d9d..d70031b 100644
--- a/transitfeed/feedinfo.py
+++ b/transitfeed/feedinfo.py
@@ -51,6 +51,8 @@ class FeedInfo(transitfeed.GtfsObjectBase):
                                                 'feed_end_date', problems)
 
     if (start_date_valid and end_date_valid and
+        not transitfeed.IsEmpty(self.feed_start_date) and
+        not transitfeed.IsEmpty(self.feed_end_date) and
         self.feed_end_date < self.feed_start_date):
         problems.InvalidValue('feed_end_date', self.feed_end_date,
                               'feed_end_date %s is earlier than '
-- 
2.43.0


From 0532e080f0d63b1b567c9931487f56c3bcf22b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 25/94] fix: an invalid date in calendar_dates.txt was reported
 with the location of another row of its service

---
 transitfeed/serviceperiod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/serviceperiod.py b/transitfeed/serviceperiod.py
index 7098f54..57e5b2a 100755
--- a/transitfeed/serviceperiod.py
+++ b/transitfeed/serviceperiod.py
@@ -324,7 +324,8 @@ class ServicePeriod(object):
     if util.IsEmpty(date):
       problems.MissingValue(field_name, date, context)
       return False
-    elif not util.ValidateDate(date, field_name, problems):
+    elif not util.IsValidDate(date):
+      problems.InvalidValue(field_name, date, context=context)
       return False
     else:
       try:
-- 
2.43.0


From 758e96b6d0ec5eaf2637ad011b93c97b57ebfaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:45 +0000
Subject: [PATCH 26/94] fix: a negative or badly written shape_dist_traveled of
 a stop time was accepted without a report

---
 transitfeed/stoptime.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 21bdea4..64364fd 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -155,7 +155,13 @@ class StopTime(object):
       self.shape_dist_traveled = None
     else:
       try:
-        self.shape_dist_traveled = float(shape_dist_traveled)
+        if isinstance(shape_dist_traveled, basestring):
+          distance = util.FloatStringToFloat(shape_dist_traveled, problems)
+        else:
+          distance = float(shape_dist_traveled)
+        if distance < 0:
+          raise ValueError()
+        self.shape_dist_traveled = distance
       except ValueError:
         problems.InvalidValue('shape_dist_traveled', shape_dist_traveled)
 
-- 
2.43.0


From bd7df5e4b6dbbd3ee83e9a2a76f1fbba4aa067f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 27/94] fix: the unusual trip filter overwrote given trip_type
 values without being asked to

---
 unusual_trip_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unusual_trip_filter.py b/unusual_trip_filter.py
index c0c2210..72c22d6 100644
--- a/unusual_trip_filter.py
+++ b/unusual_trip_filter.py
@@ -72,6 +72,8 @@ class UnusualTripFilter(object):
                     pattern[0]['trip_headsign'],
                     ratio))
           for trip in pattern:
+            if trip['trip_type']:
+              continue # keep the current value unless it is to be overridden
             trip.trip_type = 1 # special
             self.info("\t\tsetting trip_type of trip %s as special" %
                       trip.trip_id)
-- 
2.43.0


From fd4cfb5ee9ce833ca3bd772f2c1f0c2c0ecc540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:37 +0000
Subject: [PATCH 28/94] fix: files with the same loading order were left out of
 the loading order

---
 transitfeed/gtfsfactory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/gtfsfactory.py b/transitfeed/gtfsfactory.py
index 76528b0..d755e53 100644
--- a/transitfeed/gtfsfactory.py
+++ b/transitfeed/gtfsfactory.py
@@ -127,12 +127,12 @@ class GtfsFactory(object):
   def GetLoadingOrder(self):
     """Returns a list of filenames sorted by loading order.
     Only includes files that Loader's standardized loading knows how to load"""
-    result = {}
+    result = []
     for filename, mapping in self._file_mapping.iteritems():
       loading_order = mapping['loading_order']
       if loading_order is not None:
-        result[loading_order] = filename
-    return list(result[key] for key in sorted(result))
+        result.append((loading_order, filename))
+    return [filename for _, filename in sorted(result)]
 
   def IsFileRequired(self, filename):
     """Returns true if a file is required by GTFS, false otherwise.
-- 
2.43.0


From d4d9af55733c82da1ad229f661eae8776ad7594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:37 +0000
Subject: [PATCH 29/94] fix: updating a mapping changed the dictionary given to
 AddMapping and every factory it was added to

---
 transitfeed/gtfsfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/gtfsfactory.py b/transitfeed/gtfsfactory.py
index d755e53..1e8e205 100644
--- a/transitfeed/gtfsfactory.py
+++ b/transitfeed/gtfsfactory.py
@@ -171,7 +171,7 @@ class GtfsFactory(object):
         raise problems.InvalidMapping(field)
     if filename in self.GetKnownFilenames():
       raise problems.DuplicateMapping(filename)
-    self._file_mapping[filename] = new_mapping
+    self._file_mapping[filename] = dict(new_mapping)
 
   def UpdateMapping(self, filename, mapping_update):
     """Updates an entry in the list of known filenames.
-- 
2.43.0


From fc06729ce09efa12587cf7546d8982053885a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:37 +0000
Subject: [PATCH 30/94] fix: Schedule.Load used the default factory instead of
 the schedule's

---
 transitfeed/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 657e52f..ca1e371 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -611,7 +611,8 @@ class Schedule(object):
   def Load(self, feed_path, extra_validation=False):
     loader = self._gtfs_factory.Loader(feed_path,
                                        self, problems=self.problem_reporter,
-                                       extra_validation=extra_validation)
+                                       extra_validation=extra_validation,
+                                       gtfs_factory=self._gtfs_factory)
     loader.Load()
 
   def _WriteArchiveString(self, archive, filename, stringio):
-- 
2.43.0


From b5c2be55286e9a8e0e94dbe5b60d7db47880da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:37 +0000
Subject: [PATCH 31/94] fix: the loader created its schedule with the default
 factory instead of its own

---
 transitfeed/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 7679ceb..88e11a7 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -56,7 +56,8 @@ class Loader:
 
     if not schedule:
       schedule = gtfs_factory.Schedule(problem_reporter=problems,
-          memory_db=memory_db, check_duplicate_trips=check_duplicate_trips)
+          memory_db=memory_db, check_duplicate_trips=check_duplicate_trips,
+          gtfs_factory=gtfs_factory)
 
     self._extra_validation = extra_validation
     self._schedule = schedule
-- 
2.43.0


From 1f54047d30543de5abba693f0c7d4c130ad8b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 32/94] fix: routes made by Schedule.AddRoute made their trips
 with the default factory

---
 transitfeed/schedule.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index ca1e371..2ceaecd 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -393,6 +393,7 @@ class Schedule(object):
       route_id = util.FindUniqueId(self.routes)
     route = self._gtfs_factory.Route(short_name=short_name, long_name=long_name,
                         route_type=route_type, route_id=route_id)
+    route.SetGtfsFactory(self._gtfs_factory)
     default_agency = self.GetDefaultAgency()
     if default_agency is not None:
       route.agency_id = default_agency.agency_id
-- 
2.43.0


From 0140c13bf56fe9ac0ddf1cdd9b4acbfd6ce10ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:00 +0000
Subject: [PATCH 33/94] fix: trips made by Route.AddTrip made their stop times
 with the default factory

---
 transitfeed/route.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/route.py b/transitfeed/route.py
index b46c111..adfa6d7 100755
--- a/transitfeed/route.py
+++ b/transitfeed/route.py
@@ -91,6 +91,7 @@ class Route(GtfsObjectBase):
     trip_class = self.GetGtfsFactory().Trip
     trip_obj = trip_class(route=self, headsign=headsign,
                 service_period=service_period, trip_id=trip_id)
+    trip_obj.SetGtfsFactory(self.GetGtfsFactory())
     schedule.AddTripObject(trip_obj)
     return trip_obj
 
-- 
2.43.0


From 5622d0dcd3b1b3eea395207dfb76d59080f94bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:39 +0000
Subject: [PATCH 34/94] fix: PolyGraph.ShortestPath missed shorter paths to
 nodes already in the open set

---
 transitfeed/shapelib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 5d6003b..db4e91f 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -475,6 +475,8 @@ class PolyGraph(PolyCollection):
     came_from = {} # Map to reconstruct optimal path once we're done.
     while open_set:
       (f_x, x) = heapq.heappop(open_heap)
+      if x in closed_set:
+        continue # already evaluated with a lower f(x)
       open_set.remove(x)
       if x == goal:
         return self._ReconstructPath(came_from, goal)
@@ -490,14 +492,14 @@ class PolyGraph(PolyCollection):
         tentative_g_score = g_scores[x] + edge.LengthMeters()
         tentative_is_better = False
         if y not in open_set:
-          h_y = y.GetDistanceMeters(goal)
-          f_y = tentative_g_score + h_y
           open_set.add(y)
-          heapq.heappush(open_heap, (f_y, y))
           tentative_is_better = True
         elif tentative_g_score < g_scores[y]:
           tentative_is_better = True
         if tentative_is_better:
+          h_y = y.GetDistanceMeters(goal)
+          f_y = tentative_g_score + h_y
+          heapq.heappush(open_heap, (f_y, y))
           came_from[y] = (x, edge)
           g_scores[y] = tentative_g_score
     return None
-- 
2.43.0


From e4561160905676f2249ec3096ffdec3a4574963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:39 +0000
Subject: [PATCH 35/94] fix: a path longer than those kept replaced a shorter
 one in FindShortestMultiPointPath

---
 transitfeed/shapelib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index db4e91f..a31ae24 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -612,4 +612,4 @@ class PolyGraph(PolyCollection):
         if len(heap) < keep_best_n:
           heapq.heappush(heap, new_item)
         else:
-          heapq.heapreplace(heap, new_item)
+          heapq.heappushpop(heap, new_item)
-- 
2.43.0


From a093e371d79501b7ca75558f3e18fa7e0a6c7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:39 +0000
Subject: [PATCH 36/94] fix: a shape variant of the same name replaced another
 shape whose name was made up before

---
 transitfeed/shapelib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index a31ae24..5ccd755 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -404,7 +404,10 @@ class PolyCollection(object):
         print("  (Skipping as it apears to be an exact duplicate)")
       else:
         print("  (Adding new shape variant with uniquified name)")
-        inserted_name = "%s-%d" % (inserted_name, len(self._name_to_shape))
+        suffix = len(self._name_to_shape)
+        while inserted_name in self._name_to_shape:
+          inserted_name = "%s-%d" % (poly.GetName(), suffix)
+          suffix += 1
     self._name_to_shape[inserted_name] = poly
 
   def NumPolys(self):
-- 
2.43.0


From 9649c5e07b2c48333921073ee6af5b8831437365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 37/94] fix: drop the row context when a row cannot be used, so
 later problems are not located at it

---
 transitfeed/loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 88e11a7..2552e45 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -419,6 +419,7 @@ class Loader:
           instance = object_class(field_dict=d)
           instance.SetGtfsFactory(self._gtfs_factory)
           if not instance.ValidateBeforeAdd(self._problems):
+            self._problems.ClearContext()
             continue
           instance.AddToSchedule(self._schedule, self._problems)
           instance.ValidateAfterAdd(self._problems)
@@ -509,6 +510,7 @@ class Loader:
 
       shapepoint = self._gtfs_factory.ShapePoint(field_dict=d)
       if not shapepoint.ParseAttributes(self._problems):
+        self._problems.ClearContext()
         continue
 
       if shapepoint.shape_id in shapes:
@@ -544,6 +546,7 @@ class Loader:
       except (TypeError, ValueError):
         self._problems.InvalidValue('stop_sequence', stop_sequence,
                                     'This should be a number.')
+        self._problems.ClearContext()
         continue
       if sequence < 0:
         self._problems.InvalidValue('stop_sequence', sequence,
@@ -552,11 +555,13 @@ class Loader:
       if stop_id not in self._schedule.stops:
         self._problems.InvalidValue('stop_id', stop_id,
                                     'This value wasn\'t defined in stops.txt')
+        self._problems.ClearContext()
         continue
       stop = self._schedule.stops[stop_id]
       if trip_id not in self._schedule.trips:
         self._problems.InvalidValue('trip_id', trip_id,
                                     'This value wasn\'t defined in trips.txt')
+        self._problems.ClearContext()
         continue
       trip = self._schedule.trips[trip_id]
 
-- 
2.43.0


From 497d34e24f61e94369e0488a9f48a74c66699318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 38/94] fix: report further rows of feed_info.txt instead of
 silently replacing the first

---
 transitfeed/feedinfo.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/feedinfo.py b/transitfeed/feedinfo.py
index d70031b..dfa04c4 100644
--- a/transitfeed/feedinfo.py
+++ b/transitfeed/feedinfo.py
@@ -74,4 +74,9 @@ class FeedInfo(transitfeed.GtfsObjectBase):
     pass
 
   def AddToSchedule(self, schedule, problems):
+    if schedule.feed_info is not None:
+      problems.OtherProblem('There should be only one row in feed_info.txt. '
+                            'This row is ignored.',
+                            type=transitfeed.TYPE_WARNING)
+      return
     schedule.AddFeedInfoObject(self, problems)
-- 
2.43.0


From ea4485d663c5d96972066fcbc07ae8c907cea47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 39/94] fix: format a duplicate key whose column is missing

---
 transitfeed/problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/problems.py b/transitfeed/problems.py
index 98e507b..751874e 100755
--- a/transitfeed/problems.py
+++ b/transitfeed/problems.py
@@ -170,7 +170,8 @@ class ProblemReporter(object):
     if isinstance(column_names, (tuple, list)):
       column_names = '(' + ', '.join(column_names) + ')'
     if isinstance(values, tuple):
-      values = '(' + ', '.join(values) + ')'
+      # a value is None if its column is missing from the file
+      values = '(' + ', '.join(v or '' for v in values) + ')'
     e = DuplicateID(column_name=column_names, value=values,
                     context=context, context2=self._context, type=type)
     self.AddToAccumulator(e)
-- 
2.43.0


From 4e0bfca6bd3ff0d6914d50acfeddf12fb887ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 40/94] fix: report rows csv can't parse instead of aborting
 the load

---
 transitfeed/loader.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 2552e45..ed1d5e4 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -145,6 +145,20 @@ class Loader:
     contents = contents.lstrip(codecs.BOM_UTF8)
     return contents
 
+  def _CsvRows(self, file_name, reader):
+    """Yields the rows of reader, with an empty one for each bad row."""
+    while True:
+      try:
+        yield next(reader)
+      except StopIteration:
+        return
+      except csv.Error as e:
+        self._problems.CsvSyntax(
+            description='The csv parser can\'t read line %d: %s' %
+                        (reader.line_num, e),
+            context=(file_name, reader.line_num))
+        yield []
+
   def _ReadCsvDict(self, file_name, cols, required, deprecated):
     """Reads lines from file_name, yielding a dict of unicode values."""
     assert file_name.endswith(".txt")
@@ -160,9 +174,10 @@ class Loader:
     # after fields. Space after header fields can cause a serious parsing
     # problem, so warn. Space after body fields can cause a problem time,
     # integer and id fields; they will be validated at higher levels.
-    reader = csv.reader(eol_checker, skipinitialspace=True)
+    reader = self._CsvRows(
+        file_name, csv.reader(eol_checker, skipinitialspace=True))
 
-    raw_header = next(reader)
+    raw_header = next(reader, [])
     header_occurrences = util.defaultdict(lambda: 0)
     header = []
     valid_columns = []  # Index into raw_header and raw_row
@@ -290,9 +305,10 @@ class Loader:
 
     eol_checker = util.EndOfLineChecker(StringIO(contents),
                                    file_name, self._problems)
-    reader = csv.reader(eol_checker)  # Use excel dialect
+    # Use excel dialect
+    reader = self._CsvRows(file_name, csv.reader(eol_checker))
 
-    header = next(reader)
+    header = next(reader, [])
     header = map(lambda x: x.strip(), header)  # trim any whitespace
     header_occurrences = util.defaultdict(lambda: 0)
     for column_header in header:
-- 
2.43.0


From 938dfa9c04a4340a6c73ab2df04841c271294582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 41/94] fix: don't abort the load for a file that is not valid
 utf-16

---
 transitfeed/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index ed1d5e4..24b8ce8 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -127,7 +127,10 @@ class Loader:
         codecs.BOM_UTF16_LE):
       self._problems.FileFormat("appears to be encoded in utf-16", (file_name, ))
       # Convert and continue, so we can find more errors
-      contents = codecs.getdecoder('utf-16')(contents)[0].encode('utf-8')
+      try:
+        contents = codecs.getdecoder('utf-16')(contents)[0].encode('utf-8')
+      except UnicodeError:
+        return
 
     null_index = contents.find('\0')
     if null_index != -1:
-- 
2.43.0


From 2aebe7e707801e6e1c002517af67aa96e5736e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 42/94] fix: strip a byte order mark, not any of its bytes, and
 report a file with nothing else as empty

---
 transitfeed/loader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 24b8ce8..b186565 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -145,7 +145,10 @@ class Loader:
 
     # strip out any UTF-8 Byte Order Marker (otherwise it'll be
     # treated as part of the first column name, causing a mis-parse)
-    contents = contents.lstrip(codecs.BOM_UTF8)
+    if contents.startswith(codecs.BOM_UTF8):
+      contents = contents[len(codecs.BOM_UTF8):]
+      if not contents:
+        self._problems.EmptyFile(file_name)
     return contents
 
   def _CsvRows(self, file_name, reader):
-- 
2.43.0


From 0ffebd7e0cff3eb1483908aa8c094d1228247596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 43/94] fix: report a damaged archive member instead of
 aborting the load

---
 transitfeed/loader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index b186565..e6f4f8c 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -20,6 +20,7 @@ import csv
 import os
 import re
 import zipfile
+import zlib
 
 from . import gtfsfactoryuser
 from . import problems
@@ -412,6 +413,10 @@ class Loader:
       except KeyError:  # file not found in archve
         self._problems.MissingFile(file_name)
         return None
+      except (zipfile.BadZipfile, zlib.error, EOFError, NotImplementedError) as e:
+        self._problems.FileFormat("can't be read from the archive: %s" % e,
+                                  (file_name, ))
+        return None
     else:
       try:
         data_file = open(os.path.join(self._path, file_name), 'rb')
-- 
2.43.0


From 4a684a3b3b0cc00e59ee89cc12c745fbb4e6eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 44/94] fix: nan and infinity are not valid numbers in a feed

---
 transitfeed/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 33487a6..4d2b4aa 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -493,6 +493,9 @@ def FloatStringToFloat(float_string, problems=None):
     # But it does complain about float("0b10"), so this should be enough.
     raise ValueError()
 
+  if math.isnan(parsed_value) or math.isinf(parsed_value):
+    raise ValueError()
+
   if not match and problems is not None:
     # Does not match the regex, but it's a float according to Python
     problems.InvalidFloatValue(float_string)
-- 
2.43.0


From 337eb052d15dcb06eed89d8a2f1b73965b27d457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 45/94] fix: report differing time zones when an agency has
 none

---
 transitfeed/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 2ceaecd..ea8e7d7 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -812,7 +812,7 @@ class Schedule(object):
     timezones_set = set(map(lambda agency:agency.agency_timezone,
                             self.GetAgencyList()))
     if len(timezones_set) > 1:
-      timezones_str = '"%s"' % ('", "'.join(timezones_set))
+      timezones_str = '"%s"' % ('", "'.join(tz or '' for tz in timezones_set))
       problems.InvalidValue('agency_timezone', timezones_str,
                             'All agencies should have the same time zone. ' \
                             'Please review agency.txt.')
-- 
2.43.0


From a853f81de3c5cf916d5571191e4cf2bff8830dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:51 +0000
Subject: [PATCH 46/94] fix: a column named like a member of the loaded class
 must not replace it

---
 transitfeed/loader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index e6f4f8c..47fcb17 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -429,6 +429,16 @@ class Loader:
       self._problems.EmptyFile(file_name)
     return results
 
+  def _GetFields(self, object_class, d):
+    """Returns d without unknown columns that would hide members of a class.
+
+    These have been reported as unrecognized columns.
+    """
+    return dict((name, value) for name, value in d.items()
+                if name in object_class._FIELD_NAMES or not (
+                    name.startswith('_') or hasattr(object_class, name) or
+                    name in ('service_period', 'pattern_id', 'trip_index')))
+
   def _LoadFeed(self):
     loading_order = self._gtfs_factory.GetLoadingOrder()
     for filename in loading_order:
@@ -443,7 +453,7 @@ class Loader:
                                        object_class._REQUIRED_FIELD_NAMES,
                                        object_class._DEPRECATED_FIELD_NAMES):
           self._problems.SetFileContext(filename, row_num, row, header)
-          instance = object_class(field_dict=d)
+          instance = object_class(field_dict=self._GetFields(object_class, d))
           instance.SetGtfsFactory(self._gtfs_factory)
           if not instance.ValidateBeforeAdd(self._problems):
             self._problems.ClearContext()
@@ -535,7 +545,8 @@ class Loader:
       file_context = (file_name, row_num, row, header)
       self._problems.SetFileContext(*file_context)
 
-      shapepoint = self._gtfs_factory.ShapePoint(field_dict=d)
+      shapepoint = self._gtfs_factory.ShapePoint(
+          field_dict=self._GetFields(self._gtfs_factory.ShapePoint, d))
       if not shapepoint.ParseAttributes(self._problems):
         self._problems.ClearContext()
         continue
-- 
2.43.0


From c02e3abe62e11fc87c7a97dd46a160b50fe919e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:15 +0000
Subject: [PATCH 47/94] fix: write zeros in stop_times.txt instead of empty
 fields

---
 transitfeed/stoptime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 64364fd..d3ef699 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -183,7 +183,8 @@ class StopTime(object):
       else:
         # Since we'll be writting to an output file, we want empty values to be
         # outputted as an empty string
-        result.append(getattr(self, fn) or '' )
+        value = getattr(self, fn)
+        result.append('' if value is None else value)
     return tuple(result)
 
   def GetSqlValuesTuple(self, trip_id):
-- 
2.43.0


From 6e8c5f888f7db50109c422572ae16a489b5d3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:15 +0000
Subject: [PATCH 48/94] fix: write coordinates with all their digits

---
 transitfeed/gtfsobjectbase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transitfeed/gtfsobjectbase.py b/transitfeed/gtfsobjectbase.py
index c68432d..067c5c6 100755
--- a/transitfeed/gtfsobjectbase.py
+++ b/transitfeed/gtfsobjectbase.py
@@ -51,7 +51,10 @@ class GtfsObjectBase(GtfsFactoryUser):
   def __getitem__(self, name):
     """Return a unicode or str representation of name or "" if not set."""
     if name in self.__dict__ and self.__dict__[name] is not None:
-      return "%s" % self.__dict__[name]
+      value = self.__dict__[name]
+      if isinstance(value, float):
+        return repr(value)  # "%s" drops digits
+      return "%s" % value
     else:
       return ""
 
-- 
2.43.0


From 99c7af777a56f52b0c1d519fa42b2febc69cdb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:23 +0000
Subject: [PATCH 49/94] fix: write every required column of routes.txt

---
 transitfeed/schedule.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index ea8e7d7..340b8d5 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -417,6 +417,8 @@ class Schedule(object):
                                       'Route uses an unknown agency_id.')
         return
 
+    # The loader wants these columns even where no route has a value for one.
+    self.AddTableColumns('routes', route._REQUIRED_FIELD_NAMES)
     self.AddTableColumns('routes', route._ColumnNames())
     route._schedule = weakref.proxy(self)
     self.routes[route.route_id] = route
-- 
2.43.0


From b1e29978a12d95df6b2e9d472891dc77a35c6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:15 +0000
Subject: [PATCH 50/94] fix: validating a stop must not give it a location_type
 it did not have

---
 transitfeed/stop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/stop.py b/transitfeed/stop.py
index 4e5e162..d573180 100755
--- a/transitfeed/stop.py
+++ b/transitfeed/stop.py
@@ -183,7 +183,8 @@ class Stop(GtfsObjectBase):
         self.location_type = 0
       else:
         try:
-          self.location_type = int(value)
+          if not isinstance(value, int):
+            self.location_type = int(value)
         except (ValueError, TypeError):
           problems.InvalidValue('location_type', value)
           del self.location_type
-- 
2.43.0


From 4f88bc623fd1b3a88e76a552fef8fbc053322368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:01 +0000
Subject: [PATCH 51/94] fix: compare the distance of a shape point with the
 nearest measured points

---
 transitfeed/shape.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 66a6e88..0fb4d54 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -69,24 +69,31 @@ class Shape(GtfsFactoryUser):
                             (shapepoint.shape_pt_sequence, self.shape_id))
 
     if shapepoint.shape_dist_traveled is not None and len(self.sequence) > 0:
-      if (index != len(self.sequence) and
-          self.distance[index] is not None and
-          shapepoint.shape_dist_traveled > self.distance[index]):
+      # Points without a distance lie between; compare with the nearest ones
+      # that have one, so that the order of the points doesn't matter.
+      after = index
+      while after < len(self.distance) and self.distance[after] is None:
+        after += 1
+      before = index - 1
+      while before >= 0 and self.distance[before] is None:
+        before -= 1
+      if (after < len(self.distance) and
+          shapepoint.shape_dist_traveled > self.distance[after]):
         problems.InvalidValue('shape_dist_traveled',
                               shapepoint.shape_dist_traveled,
                               'Each subsequent point in a shape should have '
                               'a distance value that shouldn\'t be larger '
                               'than the next ones. In this case, the next '
-                              'distance was %f.' % self.distance[index])
+                              'distance was %f.' % self.distance[after])
 
-      if (index > 0 and
-          shapepoint.shape_dist_traveled < self.distance[index - 1]):
+      if (before >= 0 and
+          shapepoint.shape_dist_traveled < self.distance[before]):
         problems.InvalidValue('shape_dist_traveled',
                               shapepoint.shape_dist_traveled,
                               'Each subsequent point in a shape should have '
                               'a distance value that\'s at least as large as '
                               'the previous ones. In this case, the previous '
-                              'distance was %f.' % self.distance[index - 1])
+                              'distance was %f.' % self.distance[before])
 
     if shapepoint.shape_dist_traveled > self.max_distance:
       self.max_distance = shapepoint.shape_dist_traveled
-- 
2.43.0


From f51fffd315278a938106bfcce5ca92d8a183413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:23 +0000
Subject: [PATCH 52/94] fix: column names may hold non-ASCII characters

---
 transitfeed/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 47fcb17..efec314 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -436,7 +436,7 @@ class Loader:
     """
     return dict((name, value) for name, value in d.items()
                 if name in object_class._FIELD_NAMES or not (
-                    name.startswith('_') or hasattr(object_class, name) or
+                    name.startswith('_') or name in dir(object_class) or
                     name in ('service_period', 'pattern_id', 'trip_index')))
 
   def _LoadFeed(self):
-- 
2.43.0


From c371fd05b673590289280bea02b1c9985d689ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:14 +0000
Subject: [PATCH 53/94] fix: cut calendars at a date without leaving broken
 ranges

---
 merge.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/merge.py b/merge.py
index 0991096..e5a4aca 100755
--- a/merge.py
+++ b/merge.py
@@ -1175,22 +1175,33 @@ class ServicePeriodMerger(DataSetMerger):
               is the same as used in the calendar.txt file.
     """
 
-    def TruncatePeriod(service_period, start, end):
+    def TruncatePeriod(service_period, start, end, boundary):
       """Truncate the service period to into the range [start, end].
 
       Args:
         service_period: The service period to truncate.
         start: The start date as a string in YYYYMMDD format.
         end: The end date as a string in YYYYMMDD format.
+        boundary: The date next to the cutoff as a string in YYYYMMDD format.
       """
-      service_period.start_date = max(service_period.start_date, start)
-      service_period.end_date = min(service_period.end_date, end)
+      # A period given by calendar_dates.txt only has no range to truncate.
+      has_range = service_period.start_date and service_period.end_date
+      if has_range:
+        service_period.start_date = max(service_period.start_date, start)
+        service_period.end_date = min(service_period.end_date, end)
       dates_to_delete = []
       for k in service_period.date_exceptions:
         if (k < start) or (k > end):
           dates_to_delete.append(k)
       for k in dates_to_delete:
         del service_period.date_exceptions[k]
+      if ((has_range and service_period.start_date > service_period.end_date) or
+          (not has_range and not service_period.date_exceptions)):
+        # Nothing is left. Trips may still refer to the period, so keep it with
+        # a valid range but without service.
+        service_period.day_of_week = [False] * 7
+        service_period.start_date = boundary
+        service_period.end_date = boundary
 
     # find the date one day before cutoff
     year = int(cutoff[:4])
@@ -1201,9 +1212,9 @@ class ServicePeriodMerger(DataSetMerger):
     before = (cutoff_date - one_day_delta).strftime('%Y%m%d')
 
     for a in self.feed_merger.a_schedule.GetServicePeriodList():
-      TruncatePeriod(a, 0, before)
+      TruncatePeriod(a, '0'*8, before, before)
     for b in self.feed_merger.b_schedule.GetServicePeriodList():
-      TruncatePeriod(b, cutoff, '9'*8)
+      TruncatePeriod(b, cutoff, '9'*8, cutoff)
 
   def CheckDisjointCalendars(self):
     """Check whether any old service periods intersect with any new ones.
-- 
2.43.0


From fa0267a6f059c4456c8c0f9462aac10bf21f217d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 54/94] fix: merging must keep the timepoint of stop times

---
 merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/merge.py b/merge.py
index e5a4aca..c9ca51c 100755
--- a/merge.py
+++ b/merge.py
@@ -1477,7 +1477,7 @@ class TripMerger(DataSetMerger):
 
     for original_stop_time in original_trip.GetStopTimes():
       migrated_stop_time = transitfeed.StopTime(
-          None,
+          self.feed_merger.merged_schedule.problem_reporter,
           merge_map[original_stop_time.stop],
           original_stop_time.arrival_time,
           original_stop_time.departure_time,
@@ -1486,7 +1486,8 @@ class TripMerger(DataSetMerger):
           original_stop_time.drop_off_type,
           original_stop_time.shape_dist_traveled,
           original_stop_time.arrival_secs,
-          original_stop_time.departure_secs)
+          original_stop_time.departure_secs,
+          timepoint=original_stop_time.timepoint)
       migrated_trip.AddStopTimeObject(migrated_stop_time)
 
     for headway_period in original_trip.GetFrequencyTuples():
-- 
2.43.0


From 53c5360dc96c4fd96e162715b468dd01f9f9f262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 55/94] fix: link merged trips to their merged routes

---
 merge.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/merge.py b/merge.py
index c9ca51c..ee04b83 100755
--- a/merge.py
+++ b/merge.py
@@ -1451,8 +1451,6 @@ class TripMerger(DataSetMerger):
           original_trip.trip_id)
       migrated_trip.original_trip_id = original_trip.trip_id
     # Need to add trip to schedule before copying stoptimes
-    self.feed_merger.merged_schedule.AddTripObject(migrated_trip,
-                                                   validate=False)
 
     if schedule == self.feed_merger.a_schedule:
       merge_map = self.feed_merger.a_merge_map
@@ -1461,6 +1459,10 @@ class TripMerger(DataSetMerger):
 
     original_route = schedule.GetRoute(original_trip.route_id)
     migrated_trip.route_id = merge_map[original_route].route_id
+    # The schedule links the trip to its route, so add it after the route_id has
+    # been migrated and before the stop times are added to it.
+    self.feed_merger.merged_schedule.AddTripObject(migrated_trip,
+                                                   validate=False)
 
     original_service_period = schedule.GetServicePeriod(
         original_trip.service_id)
-- 
2.43.0


From 3ca532206b13679536f69e2f449f846683c565ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 56/94] fix: merging must not invent zones for stops without
 one

---
 merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merge.py b/merge.py
index ee04b83..037daf5 100755
--- a/merge.py
+++ b/merge.py
@@ -1030,7 +1030,9 @@ class StopMerger(DataSetMerger):
     # for the unmerged stops, we use an already mapped zone_id if possible
     # if not, we generate a new one and add it to the map
     for stop, migrated_stop in not_merged_stops:
-      if stop.zone_id in zone_map:
+      if not stop.zone_id:
+        migrated_stop.zone_id = stop.zone_id
+      elif stop.zone_id in zone_map:
         migrated_stop.zone_id = zone_map[stop.zone_id]
       else:
         migrated_stop.zone_id = self.feed_merger.GenerateId(stop.zone_id)
-- 
2.43.0


From 07d9061543d07da31e02b8c1610a9c20001b4320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 57/94] fix: merge transfers.txt by default instead of dropping
 it

---
 merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge.py b/merge.py
index 037daf5..4d3ac00 100755
--- a/merge.py
+++ b/merge.py
@@ -1741,6 +1741,7 @@ class FeedMerger(object):
     self.AddMerger(ShapeMerger(self))
     self.AddMerger(TripMerger(self))
     self.AddMerger(FareRuleMerger(self))
+    self.AddMerger(TransferMerger(self))
 
   def GetMerger(self, cls):
     """Looks for an added DataSetMerger derived from the given class.
-- 
2.43.0


From 8fb8b0bb986825081371c5900af0f8d9c68102da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 58/94] fix: generated zone ids must not collide with existing
 ones

---
 merge.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/merge.py b/merge.py
index 4d3ac00..5722cfe 100755
--- a/merge.py
+++ b/merge.py
@@ -1655,6 +1655,9 @@ class FeedMerger(object):
         entity_id = getattr(entity, id_name)
         postfix_number = ExtractPostfixNumber(entity_id)
         max_postfix_number = max(max_postfix_number, postfix_number)
+    for stop in schedule.GetStopList():
+      max_postfix_number = max(max_postfix_number,
+                               ExtractPostfixNumber(stop.zone_id))
     return max_postfix_number
 
   def GetScheduleName(self, schedule):
-- 
2.43.0


From 48092a8020ee72f6cb6742808ede3b97757aad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:09 +0000
Subject: [PATCH 59/94] fix: a blank value and a missing one are the same to
 the merger

---
 merge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/merge.py b/merge.py
index 5722cfe..a326372 100755
--- a/merge.py
+++ b/merge.py
@@ -404,7 +404,8 @@ class DataSetMerger(object):
     Raises:
       MergeError: The values were not identical.
     """
-    if a != b:
+    # A blank value is the same as a missing one.
+    if a != b and not (a in (None, '') and b in (None, '')):
       raise MergeError("values must be identical ('%s' vs '%s')" %
                        (transitfeed.EncodeUnicode(a),
                         transitfeed.EncodeUnicode(b)))
@@ -990,7 +991,7 @@ class StopMerger(DataSetMerger):
 
     # the zone_ids for merged stops can be preserved
     for (a, b, merged_stop) in self._merged:
-      assert a.zone_id == b.zone_id
+      assert (a.zone_id or None) == (b.zone_id or None)
       fm.a_zone_map[a.zone_id] = a.zone_id
       fm.b_zone_map[b.zone_id] = b.zone_id
       merged_stop.zone_id = a.zone_id
-- 
2.43.0


From 075db18b402f177b402bec9cdac4d9f8aca59409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:39 +0000
Subject: [PATCH 60/94] fix: keep agencies without an id apart when merging

---
 merge.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/merge.py b/merge.py
index a326372..33ec68e 100755
--- a/merge.py
+++ b/merge.py
@@ -837,8 +837,18 @@ class AgencyMerger(DataSetMerger):
     return schedule.GetAgencyList()
 
   def _GetById(self, schedule, agency_id):
+    if not agency_id:
+      # A missing id may be None or blank.
+      for agency in schedule.GetAgencyList():
+        if not agency.agency_id:
+          return agency
+      raise KeyError(agency_id)
     return schedule.GetAgency(agency_id)
 
+  def _HasId(self, schedule, agency_id):
+    # An agency without an id needs one to be told apart from the others.
+    return not agency_id or DataSetMerger._HasId(self, schedule, agency_id)
+
   def _MergeEntities(self, a, b):
     """Merges two agencies.
 
-- 
2.43.0


From 45f357f1ff9a5e063a0aacc6404d67cd4a967d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:13 +0000
Subject: [PATCH 61/94] fix: sort trips by their start time

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 41bbfef..6ec6715 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -776,4 +776,4 @@ class Trip(GtfsObjectBase):
 
 
 def SortListOfTripByTime(trips):
-  trips.sort(key=GetStartTime)
+  trips.sort(key=lambda trip: trip.GetStartTime())
-- 
2.43.0


From 2f52885133e6a1ebe73538e34360793a8c837c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:13 +0000
Subject: [PATCH 62/94] fix: the row of a route in the schedule viewer

---
 schedule_viewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 0ac217c..1be211c 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -279,7 +279,8 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def handle_json_GET_routerow(self, params):
     schedule = self.server.schedule
     route = schedule.GetRoute(params.get('route', None))
-    return [transitfeed.Route._FIELD_NAMES, route.GetFieldValuesTuple()]
+    return [transitfeed.Route._FIELD_NAMES,
+            [route[name] for name in transitfeed.Route._FIELD_NAMES]]
 
   def handle_json_GET_triprows(self, params):
     """Return a list of rows from the feed file that are related to this
-- 
2.43.0


From 8b70f70d1f88aae522d2413b91f04a7d8241f53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:13 +0000
Subject: [PATCH 63/94] fix: show the next trips of the requested date, not
 those left of the next five

---
 schedule_viewer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 1be211c..b1a9eae 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -376,13 +376,14 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
 
     time_trips = stop.GetStopTimeTrips(schedule)
     time_trips.sort()  # OPT: use bisect.insort to make this O(N*ln(N)) -> O(N)
-    # Keep the first 5 after param 'time'.
+    # Keep the first 5 after param 'time' that run on 'date'.
     # Need make a tuple to find correct bisect point
     time_trips = time_trips[bisect.bisect_left(time_trips, (time, 0)):]
-    time_trips = time_trips[:5]
     # TODO: combine times for a route to show next 2 departure times
     result = []
     for time, (trip, index), tp in time_trips:
+      if len(result) == 5:
+        break
       service_id = trip.service_id
       service_period = schedule.GetServicePeriod(service_id)
       if date and not service_period.IsActiveOn(date):
-- 
2.43.0


From 38bd1d17d8b93bdfe5e56e752f8fb0b5e83965d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:13 +0000
Subject: [PATCH 64/94] fix: answer viewer requests for unknown objects and
 with bad parameters

---
 schedule_viewer.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index b1a9eae..c3470ec 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -94,6 +94,17 @@ def StopToTuple(stop):
 
 class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def do_GET(self):
+    try:
+      self.answer_GET()
+    except KeyError:
+      # An unknown object was requested
+      self.send_error(404)
+    except (AssertionError, AttributeError, IndexError, TypeError,
+            ValueError):
+      # A parameter is missing or malformed
+      self.send_error(400)
+
+  def answer_GET(self):
     scheme, host, path, x, params, fragment = urlparse.urlparse(self.path)
     parsed_params = {}
     for k in params.split('&'):
@@ -189,9 +200,6 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     pattern include some basic information and a few sample trips."""
     schedule = self.server.schedule
     route = schedule.GetRoute(params.get('route', None))
-    if not route:
-      self.send_error(404)
-      return
     time = int(params.get('time', 0))
     date = params.get('date', "")
     sample_size = 3  # For each pattern return the start time for this many trips
-- 
2.43.0


From 8c48d2ecef7907b7fffdbf92c182938853d3615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:14 +0000
Subject: [PATCH 65/94] fix: a bounding box query for no stops returned all of
 them

---
 transitfeed/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 340b8d5..6b5ba07 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -604,11 +604,11 @@ class Schedule(object):
     """Return a sample of up to n stops in a bounding box"""
     stop_list = []
     for s in self.stops.values():
+      if len(stop_list) >= n:
+        break
       if (s.stop_lat <= north and s.stop_lat >= south and
           s.stop_lon <= east and s.stop_lon >= west):
         stop_list.append(s)
-        if len(stop_list) == n:
-          break
     return stop_list
 
   def Load(self, feed_path, extra_validation=False):
-- 
2.43.0


From c2998eeb3296f235fe1443d221a3f98356be331d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:35 +0000
Subject: [PATCH 66/94] fix: close the KML file that was opened to be written

---
 kmlwriter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kmlwriter.py b/kmlwriter.py
index 34163d9..c763c57 100755
--- a/kmlwriter.py
+++ b/kmlwriter.py
@@ -728,8 +728,12 @@ class KMLWriter(object):
       output = output_file
     else:
       output = open(output_file, 'w')
-    output.write("""<?xml version="1.0" encoding="UTF-8"?>\n""")
-    ET.ElementTree(root).write(output, 'utf-8')
+    try:
+      output.write("""<?xml version="1.0" encoding="UTF-8"?>\n""")
+      ET.ElementTree(root).write(output, 'utf-8')
+    finally:
+      if output is not output_file:
+        output.close()
 
 
 def main():
-- 
2.43.0


From 9e4f0fba6f2a968a54b760b0ea97ef1ead278778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:20 +0000
Subject: [PATCH 67/94] fix: give a renamed KML line an id that is not taken

---
 kmlparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmlparser.py b/kmlparser.py
index 993a852..bae1098 100755
--- a/kmlparser.py
+++ b/kmlparser.py
@@ -130,7 +130,11 @@ class KmlParser(object):
 
       # If the shape has different points, we need to modify our shape id so as
       # to avoid duplication.
-      shape.shape_id += '_%d' % len(feed.GetShapeList())
+      shape_ids = set(s.shape_id for s in feed.GetShapeList())
+      number = len(shape_ids)
+      while '%s_%d' % (p.name, number) in shape_ids:
+        number += 1
+      shape.shape_id += '_%d' % number
 
     except KeyError:
       # No existing shape with that id, so no worries.
-- 
2.43.0


From 4969245d04750dc0c3b43e8267285d14d6cc371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:48 +0000
Subject: [PATCH 68/94] fix: draw the graph of a pattern whose stops are all at
 the same place

---
 gtfsscheduleviewer/marey_graph.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index 8113696..1ef91f1 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -275,10 +275,9 @@ class MareyGraph:
     """
 
     def DistanceInTravelTime(dep_secs, arr_secs):
-      t_dist = arr_secs-dep_secs
-      if t_dist<0:
-        t_dist = self._DUMMY_SEPARATOR # min separation
-      return t_dist
+      if dep_secs is None or arr_secs is None or arr_secs < dep_secs:
+        return self._DUMMY_SEPARATOR # min separation
+      return arr_secs-dep_secs
 
     if not triplist:
       return []
@@ -288,7 +287,7 @@ class MareyGraph:
     else:
       trip = triplist[0]
 
-    t_dists2 = [DistanceInTravelTime(stop[3],tail[2]) for (stop,tail)
+    t_dists2 = [DistanceInTravelTime(stop[1],tail[0]) for (stop,tail)
                  in itertools.izip(trip.GetTimeStops(),trip.GetTimeStops()[1:])]
     return t_dists2
 
-- 
2.43.0


From b16e46a1cd032d1ff6b45cad05a94b875b1934d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:00 +0000
Subject: [PATCH 69/94] fix: draw graphs of trips whose ids are not plain ASCII
 words

---
 gtfsscheduleviewer/marey_graph.py | 8 +++++---
 schedule_viewer.py                | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index 1ef91f1..d7fb980 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -36,6 +36,7 @@ from __future__ import print_function
 
 import itertools
 import transitfeed
+from xml.sax import saxutils
 
 
 class MareyGraph:
@@ -334,10 +335,11 @@ class MareyGraph:
       for j,freq_offset in enumerate(start_offsets):
         if j>0 and not colpar:
           color="purple"
-        scriptcall = 'onmouseover="LineClick(\'%s\',\'Trip %s starting %s\')"' % (t.trip_id,
-            t.trip_id, transitfeed.FormatSecondsSinceMidnight(t.GetStartTime()))
+        trip_id = saxutils.escape(t.trip_id, {'"': '&quot;'})
+        scriptcall = 'onmouseover="LineClick(\'%s\',\'Trip %s starting %s\')"' % (trip_id,
+            trip_id, transitfeed.FormatSecondsSinceMidnight(t.GetStartTime()))
         tmpstrhead = '<polyline class="T" id="%s" stroke="%s" %s points="' % \
-          (str(t.trip_id),color, scriptcall)
+          (trip_id,color, scriptcall)
         tmpstrs.append(tmpstrhead)
 
         for i, s in enumerate(t.GetTimeStops()):
diff --git a/schedule_viewer.py b/schedule_viewer.py
index c3470ec..b9d84db 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -447,7 +447,7 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
     marey.SetSpan(pattern_start_time,pattern_end_time)
     marey.Draw(triplist[0].GetPattern(), triplist, height)
 
-    content = marey.Draw()
+    content = transitfeed.EncodeUnicode(marey.Draw())
 
     self.send_response(200)
     self.send_header('Content-Type', 'image/svg+xml')
-- 
2.43.0


From f2edb2aeeeaceb3edab0220af5963632e7d19fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:04 +0000
Subject: [PATCH 70/94] fix: upgrade translations of tables that start with a
 byte order mark

---
 upgrade_translations.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/upgrade_translations.py b/upgrade_translations.py
index 4cd7587..4ac3e0c 100755
--- a/upgrade_translations.py
+++ b/upgrade_translations.py
@@ -68,6 +68,7 @@ Translations in GTFS-Translations format.
 
 from __future__ import print_function
 
+import codecs
 import csv
 import os
 import os.path
@@ -159,12 +160,21 @@ class RecordIdHelper(object):
         return None
 
 
+def open_table(filename):
+    """Opens a CSV table for reading after its byte order mark, if any.
+    """
+    csvfile = open(filename, 'rb')
+    if csvfile.read(len(codecs.BOM_UTF8)) != codecs.BOM_UTF8:
+        csvfile.seek(0)
+    return csvfile
+
+
 def read_first_available_value(filename, field_name):
     """Reads the first assigned value of the given field in the CSV table.
     """
     if not os.path.exists(filename):
         return None
-    with open(filename, 'rb') as csvfile:
+    with open_table(filename) as csvfile:
         reader = csv.DictReader(csvfile)
         for row in reader:
             value = row.get(field_name)
@@ -212,8 +222,8 @@ class OldTranslations(object):
         print('Reading original translations')
         self.translations_map = {}
         n_translations = 0
-        with open(os.path.join(self.src_dir, 'translations.txt'),
-                  'rb') as csvfile:
+        with open_table(
+                os.path.join(self.src_dir, 'translations.txt')) as csvfile:
             reader = csv.DictReader(csvfile)
             for row in reader:
                 self.translations_map.setdefault(
@@ -294,7 +304,7 @@ class TranslationsConverter(object):
             raise Exception('No %s' % table_name)
 
         out_filename = os.path.join(dest_dir, '%s.txt' % table_name)
-        with open(in_filename, 'rb') as in_file:
+        with open_table(in_filename) as in_file:
             reader = csv.DictReader(in_file)
             if not reader.fieldnames or not any_translatable_field(
                     reader.fieldnames):
-- 
2.43.0


From 1b5298d2fe2393293abd0b22fd8d61f117c82498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:04 +0000
Subject: [PATCH 71/94] fix: do not overwrite the feed whose translations are
 upgraded

---
 upgrade_translations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/upgrade_translations.py b/upgrade_translations.py
index 4ac3e0c..2f7b1fd 100755
--- a/upgrade_translations.py
+++ b/upgrade_translations.py
@@ -275,6 +275,10 @@ class TranslationsConverter(object):
         """
         Converts translations to the new format and stores at dest_dir.
         """
+        if os.path.realpath(dest_dir) == os.path.realpath(self.src_dir):
+            raise Exception(
+                'The destination directory is the source directory: %s' %
+                dest_dir)
         if not os.path.isdir(dest_dir):
             os.makedirs(dest_dir)
         total_translation_rows = 0
-- 
2.43.0


From 55f5d0e3c5521da0fe80b2e32de086879ea7e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:44 +0000
Subject: [PATCH 72/94] fix: draw feeds whose tables start with a byte order
 mark

---
 visualize_pathways.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 8cb93d1..724aa2f 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -42,6 +42,7 @@ from __future__ import print_function
 
 from enum import Enum
 import argparse
+import codecs
 import csv
 import re
 import os
@@ -193,6 +194,8 @@ class GtfsReader(object):
     def _read_table(self, table, entity_type):
         entities = {}
         with open(os.path.join(self.gtfs_dir, '%s.txt' % table), 'rb') as f:
+            if f.read(len(codecs.BOM_UTF8)) != codecs.BOM_UTF8:
+                f.seek(0)
             reader = csv.DictReader(f)
             for row in reader:
                 entity = entity_type(row, self)
-- 
2.43.0


From be6446cc95a29b47d872f241bd7041889de3ce3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:44 +0000
Subject: [PATCH 73/94] fix: draw feeds with rows that leave out trailing empty
 fields

---
 visualize_pathways.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 724aa2f..324f84d 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -196,7 +196,7 @@ class GtfsReader(object):
         with open(os.path.join(self.gtfs_dir, '%s.txt' % table), 'rb') as f:
             if f.read(len(codecs.BOM_UTF8)) != codecs.BOM_UTF8:
                 f.seek(0)
-            reader = csv.DictReader(f)
+            reader = csv.DictReader(f, restval='')
             for row in reader:
                 entity = entity_type(row, self)
                 entities[entity.gtfs_id] = entity
-- 
2.43.0


From ae21ab57660c296745e0f7fca29f7c9d964e5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:44 +0000
Subject: [PATCH 74/94] fix: quote pathway graph ids that are keywords of the
 DOT language

---
 visualize_pathways.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 324f84d..cacdccf 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -203,7 +203,9 @@ class GtfsReader(object):
         return entities
 
 
-_VALID_GRAPHVIZ_ID = re.compile(r'^[A-Za-z_][A-Za-z0-9_]+$')
+_VALID_GRAPHVIZ_ID = re.compile(
+    r'^(?!(?:node|edge|graph|digraph|subgraph|strict)$)[A-Za-z_][A-Za-z0-9_]+$',
+    re.IGNORECASE)
 
 
 def escape_graphviz_id(gtfs_id):
-- 
2.43.0


From 0690bf4b12f5e863bf8818cc8e37549caa75cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:44 +0000
Subject: [PATCH 75/94] fix: escape backslashes of ids and names in the pathway
 graph

---
 visualize_pathways.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index cacdccf..b6cff50 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -211,7 +211,9 @@ _VALID_GRAPHVIZ_ID = re.compile(
 def escape_graphviz_id(gtfs_id):
     if _VALID_GRAPHVIZ_ID.match(gtfs_id):
         return gtfs_id
-    return '"%s"' % gtfs_id.replace('"', r'\"')
+    return '"%s"' % (gtfs_id.replace('\\', r'\\')
+                     .replace('"', r'\"')
+                     .replace('\n', r'\n'))
 
 
 def truncate_string(s, max_length=20):
@@ -366,20 +368,20 @@ def location_shape(location_type):
 def location_label(location, max_length=20):
     label = location.gtfs_id
     if location.platform_code:
-        label += '\\nPlatform %s' % location.platform_code
+        label += '\nPlatform %s' % location.platform_code
     elif location.signposted_as:
-        label += '\\n%s' % location.signposted_as
+        label += '\n%s' % location.signposted_as
     elif location.name:
-        label += '\\n%s' % truncate_string(location.name, max_length)
+        label += '\n%s' % truncate_string(location.name, max_length)
     return label
 
 
 def pathway_label(pathway):
     label = pathway.mode.name
     if pathway.signposted_as:
-        label += '\\n%s' % truncate_string(pathway.signposted_as)
+        label += '\n%s' % truncate_string(pathway.signposted_as)
     if pathway.reversed_signposted_as:
-        label += '\\n%s' % truncate_string(pathway.reversed_signposted_as)
+        label += '\n%s' % truncate_string(pathway.reversed_signposted_as)
     return label
 
 
-- 
2.43.0


From 9bbadb0484a2d1ea0036aaa2a354de773fe935ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:44 +0000
Subject: [PATCH 76/94] fix: draw platforms that have no parent station, and
 their boarding areas

---
 visualize_pathways.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index b6cff50..4b9dabe 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -451,7 +451,9 @@ def gtfs_to_graphviz(gtfs, stop_ids=None):
                 location_color(location.location_type)))
 
     for location in locations:
-        if not location.parent_id or requires_platform_cluster(location):
+        if requires_platform_cluster(location) or (
+                not location.parent_id and
+                location.location_type == LocationType.station):
             continue
         node = GraphNode(
             location.gtfs_id,
@@ -459,7 +461,8 @@ def gtfs_to_graphviz(gtfs, stop_ids=None):
             location_color(location.location_type),
             location_shape(location.location_type))
         cluster = graph.get_cluster(location.station().gtfs_id)
-        if location.location_type == LocationType.boarding_area:
+        if (location.location_type == LocationType.boarding_area and
+                location.parent.parent_id):
             cluster = cluster.get_cluster(location.parent_id)
         cluster.nodes.append(node)
 
-- 
2.43.0


From 36f9714a21def3ceb13efafae49eff9a629344c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 77/94] fix: answer whether a language code is a valid BCP 47
 tag

---
 extensions/googletransit/extension_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/googletransit/extension_util.py b/extensions/googletransit/extension_util.py
index 7f93bbc..a63545b 100644
--- a/extensions/googletransit/extension_util.py
+++ b/extensions/googletransit/extension_util.py
@@ -28,7 +28,7 @@ def IsValidLanguageCode(lang):
       using the pybcp47 module
   """
   bcp47_obj = parser.ParseLanguage(str(lang.lower()))
-  return bcp47_obj.IsWellformed() and bcp47_obj.IsValid()
+  return bcp47_obj.wellformed and bcp47_obj.valid
 
 def ValidateLanguageCode(lang, column_name=None, problems=None):
   """
-- 
2.43.0


From e15358084ff411ea4b51a11ec439e05ba5fbbf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 78/94] fix: read the private use part of language codes in
 either case

---
 extensions/googletransit/pybcp47/bcp47languageparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index 289dff2..20ebc52 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -231,7 +231,7 @@ class Bcp47LanguageParser(object):
 
   # Private subtag consisting of the subtag "x" followed by 1..n subtags of
   # 1 to 8 characters.
-  _wellformed_dict['private'] = "x(-([a-zA-Z0-9]{1,8}))+"
+  _wellformed_dict['private'] = "[xX](-([a-zA-Z0-9]{1,8}))+"
 
   # Full BCP-47 wellformed regular expression.
   _wellformed_bcp47 = re.compile(
-- 
2.43.0


From f230c79afd7d5c05e2dcb003eddbc9ccc6fbb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 79/94] fix: report language codes that hold other than ASCII
 letters instead of failing

---
 extensions/googletransit/extension_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/extension_util.py b/extensions/googletransit/extension_util.py
index a63545b..36cfefc 100644
--- a/extensions/googletransit/extension_util.py
+++ b/extensions/googletransit/extension_util.py
@@ -27,7 +27,7 @@ def IsValidLanguageCode(lang):
     - checks whether the code, as lower case, is well formed and valid BCP47
       using the pybcp47 module
   """
-  bcp47_obj = parser.ParseLanguage(str(lang.lower()))
+  bcp47_obj = parser.ParseLanguage(lang)
   return bcp47_obj.wellformed and bcp47_obj.valid
 
 def ValidateLanguageCode(lang, column_name=None, problems=None):
@@ -43,7 +43,7 @@ def ValidateLanguageCode(lang, column_name=None, problems=None):
   """
   if util.IsEmpty(lang):
     return True
-  bcp47_obj = parser.ParseLanguage(str(lang.lower()))
+  bcp47_obj = parser.ParseLanguage(lang)
   if not bcp47_obj.wellformed:
     if problems:
       problems.InvalidValue(column_name, lang,
-- 
2.43.0


From 9c6d2e6d49c3445d02568590d623d128328a22ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 80/94] fix: do not accept more than one extended language
 subtag

---
 extensions/googletransit/pybcp47/bcp47languageparser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index 20ebc52..7c3ad36 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -305,6 +305,12 @@ class Bcp47LanguageParser(object):
     if lang_code_part_idx == lang_code_part_len:
       return lang_obj.Update(None, True, True)
 
+    # The second and third extlang positions are reserved (RFC 5646 2.2.2).
+    extlang_tag = lang_code_parts[lang_code_part_idx]
+    if self.IsWellformedSubtag(extlang_tag, "extlang"):
+      return lang_obj.Update("unknown extlang \'" + extlang_tag + "\'",
+                             True, False)
+
     script_tag = lang_code_parts[lang_code_part_idx]
     if self.IsWellformedSubtag(script_tag, "script"):
       if script_tag in self.scripts:
-- 
2.43.0


From ba38899df1530bfbd164795766597646524464a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 81/94] fix: check every variant subtag of a language code, not
 just the first

---
 .../googletransit/pybcp47/bcp47languageparser.py      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index 7c3ad36..76477c1 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -335,8 +335,15 @@ class Bcp47LanguageParser(object):
     if lang_code_part_idx == lang_code_part_len:
       return lang_obj.Update(None, True, True)
 
-    variant_tag = lang_code_parts[lang_code_part_idx]
-    if self.IsWellformedSubtag(variant_tag, "variant"):
+    seen_variants = set()
+    while lang_code_part_idx < lang_code_part_len:
+      variant_tag = lang_code_parts[lang_code_part_idx]
+      if not self.IsWellformedSubtag(variant_tag, "variant"):
+        break
+      if variant_tag in seen_variants:
+        return lang_obj.Update("duplicate variant \'" + variant_tag + "\'",
+                              True, False)
+      seen_variants.add(variant_tag)
       if variant_tag in self.variants:
         lang_obj.descriptions.append(self.variants[variant_tag])
       else:
-- 
2.43.0


From 8d171ee0132ce3904b9e951a3160a590dfb75305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:07 +0000
Subject: [PATCH 82/94] fix: do not accept language codes that repeat an
 extension singleton

---
 .../googletransit/pybcp47/bcp47languageparser.py       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index 76477c1..ba44a75 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -351,6 +351,16 @@ class Bcp47LanguageParser(object):
                               True, False)
       lang_code_part_idx = lang_code_part_idx + 1
 
+    seen_singletons = set()
+    for subtag in lang_code_parts[lang_code_part_idx:]:
+      if subtag == 'x':
+        break
+      if len(subtag) == 1:
+        if subtag in seen_singletons:
+          return lang_obj.Update("duplicate extension \'" + subtag + "\'",
+                                True, False)
+        seen_singletons.add(subtag)
+
     if lang_code_part_len > lang_code_part_idx:
       remainder = "-".join(lang_code_parts[lang_code_part_idx:])
       if len(remainder) > 0:
-- 
2.43.0


From 534a038e64a30cb8d01afd7cfc70ed6368290536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:40 +0000
Subject: [PATCH 83/94] fix: do not report blank agency ids of fares when there
 is only one agency

---
 extensions/googletransit/fareattribute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/googletransit/fareattribute.py b/extensions/googletransit/fareattribute.py
index 397f3ba..22e0d48 100644
--- a/extensions/googletransit/fareattribute.py
+++ b/extensions/googletransit/fareattribute.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import transitfeed
+import transitfeed.util as util
 
 class FareAttribute(transitfeed.FareAttribute):
   """Extension of transitfeed.FareAttribute:
@@ -31,7 +32,7 @@ class FareAttribute(transitfeed.FareAttribute):
     for agency in agencies:
       if agency.agency_id == self.agency_id:
         return
-    if len(agencies) > 1 or self.agency_id is not None:
+    if len(agencies) > 1 or not util.IsEmpty(self.agency_id):
       # If there is only one agency and Fare.agencyid is empty or not present
       # then it isn't an error
       problems.InvalidAgencyID('agency_id', self.agency_id,
-- 
2.43.0


From 7a35ec1ad0f94ca0bfff5743304bcdad6928865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:40 +0000
Subject: [PATCH 84/94] fix: report the vehicle type, not the location type, as
 the value at fault

---
 extensions/googletransit/stop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index e921074..9cebe39 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -39,10 +39,10 @@ class Stop(transitfeed.Stop):
     # read vehicle types from stops with a parent station.
     if self.vehicle_type:
       if self.location_type == 2:
-        problems.InvalidValue('vehicle_type', self.location_type,
+        problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='an entrance must not have a vehicle type')
       elif not util.IsEmpty(self.parent_station):
-        problems.InvalidValue('vehicle_type', self.location_type,
+        problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='Google Transit does not read vehicle types for stops '
               'having a parent station', type=problems_module.TYPE_WARNING)
 
-- 
2.43.0


From ae10da024bf50a19cb131d84d02403f8fd69f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:40 +0000
Subject: [PATCH 85/94] fix: report vehicle type 0 (tram) of entrances and
 child stops too

---
 extensions/googletransit/stop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index 9cebe39..36d001e 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -37,7 +37,7 @@ class Stop(transitfeed.Stop):
         'vehicle_type', problems)
     # Entrances must not have a vehicle type, in general google transit does not
     # read vehicle types from stops with a parent station.
-    if self.vehicle_type:
+    if self.vehicle_type is not None:
       if self.location_type == 2:
         problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='an entrance must not have a vehicle type')
-- 
2.43.0


From f71ab6568ffa273128469606c631f181a5092f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:40 +0000
Subject: [PATCH 86/94] fix: report a wrong location type of a stop without a
 name only once

---
 extensions/googletransit/stop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index 36d001e..caf1f7d 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -67,8 +67,9 @@ class Stop(transitfeed.Stop):
   def _ReportMissingRequiredField(self, problems, required):
     if required == 'stop_name':
       # stops of type 2 (entrance) may have an empty stop_name
-      self.ValidateStopLocationType(problems)
-      if self.location_type == 2:
+      location_type = util.ValidateAndReturnIntValue(
+          self.location_type, [0, 1, 2], 0, True)
+      if location_type == 2:
         return
     problems.MissingValue(required)
     setattr(self, required, None)
-- 
2.43.0


From 4fb90dc9aa64ed0252569e9d9a35fe867b0ca984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:55 +0000
Subject: [PATCH 87/94] fix: do not move a stop halfway when a coordinate is
 missing or malformed

---
 location_editor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/location_editor.py b/location_editor.py
index e3833bc..aef7c99 100755
--- a/location_editor.py
+++ b/location_editor.py
@@ -30,14 +30,17 @@ class LocationEditorRequestHandler(schedule_viewer.ScheduleRequestHandler):
   def handle_json_GET_setstoplocation(self, params):
     schedule = self.server.schedule
     stop_id = params.get('id', None)
-    lat = params.get('lat', -1)
-    lon = params.get('lng', -1)
+    lat = params.get('lat', '')
+    lon = params.get('lng', '')
     stop = schedule.GetStop(stop_id)
     if (stop is None):
       msg = 'Stop with id=' + stop_id + 'not found.'
     else:
-      stop.stop_lat = float(lat)
-      stop.stop_lon = float(lon)
+      # Read both before changing anything, so that no stop is moved halfway
+      stop_lat = float(lat)
+      stop_lon = float(lon)
+      stop.stop_lat = stop_lat
+      stop.stop_lon = stop_lon
       msg = 'Location of ' + stop['stop_name'] + '(' + stop_id + ') set to ' + \
             lat + 'x' + lon
     print(msg)
-- 
2.43.0


From ef5af480a16b3c96de7a598d14ed0382cad3967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:55 +0000
Subject: [PATCH 88/94] fix: do not move stops to places that are not on earth

---
 location_editor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/location_editor.py b/location_editor.py
index aef7c99..67a0d84 100755
--- a/location_editor.py
+++ b/location_editor.py
@@ -39,6 +39,9 @@ class LocationEditorRequestHandler(schedule_viewer.ScheduleRequestHandler):
       # Read both before changing anything, so that no stop is moved halfway
       stop_lat = float(lat)
       stop_lon = float(lon)
+      # Also refuses values that are not a number
+      if not (abs(stop_lat) <= 90 and abs(stop_lon) <= 180):
+        raise ValueError('Not a location: %sx%s' % (lat, lon))
       stop.stop_lat = stop_lat
       stop.stop_lon = stop_lon
       msg = 'Location of ' + stop['stop_name'] + '(' + stop_id + ') set to ' + \
-- 
2.43.0


From 5a957f609361d1fb38f3682336954c65ce547a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:55 +0000
Subject: [PATCH 89/94] fix: answer moves of stops with other than ASCII names
 when the output is no terminal

---
 location_editor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/location_editor.py b/location_editor.py
index 67a0d84..554c397 100755
--- a/location_editor.py
+++ b/location_editor.py
@@ -25,6 +25,7 @@
 from __future__ import print_function
 import schedule_viewer
 import transitfeed
+from transitfeed import util
 
 class LocationEditorRequestHandler(schedule_viewer.ScheduleRequestHandler):
   def handle_json_GET_setstoplocation(self, params):
@@ -46,7 +47,7 @@ class LocationEditorRequestHandler(schedule_viewer.ScheduleRequestHandler):
       stop.stop_lon = stop_lon
       msg = 'Location of ' + stop['stop_name'] + '(' + stop_id + ') set to ' + \
             lat + 'x' + lon
-    print(msg)
+    print(util.EncodeUnicode(msg))
     return msg
 
   def handle_json_GET_savedata(self, params):
-- 
2.43.0


From 8c7ccd156225e45583741d774e2d00f80895b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:55 +0000
Subject: [PATCH 90/94] fix: answer that the feed cannot be saved instead of
 dropping the connection

---
 location_editor.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/location_editor.py b/location_editor.py
index 554c397..6214b0c 100755
--- a/location_editor.py
+++ b/location_editor.py
@@ -55,8 +55,11 @@ class LocationEditorRequestHandler(schedule_viewer.ScheduleRequestHandler):
     if not self.server.feed_path:
       msg = 'Feed path not defined'
     else:
-      schedule.WriteGoogleTransitFeed(self.server.feed_path)
-      msg = 'Data saved to ' + self.server.feed_path
+      try:
+        schedule.WriteGoogleTransitFeed(self.server.feed_path)
+        msg = 'Data saved to ' + self.server.feed_path
+      except IOError as e:
+        msg = 'Data not saved: %s' % e
     print(msg)
     return msg
 
-- 
2.43.0


From e470c79d48eb3faa752da0439817490a94e78f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:38 +0000
Subject: [PATCH 91/94] fix: import shapes for routes with other than ASCII
 names

---
 shape_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape_importer.py b/shape_importer.py
index 8c12f19..1161bc2 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -213,7 +213,7 @@ def main(key_cols):
 
   print('Matching shapes to trips...')
   for route in schedule.GetRouteList():
-    print('Processing route', route.route_short_name)
+    print('Processing route', util.EncodeUnicode(route.route_short_name))
     patterns = route.GetPatternIdTripDict()
     for pattern_id, trips in patterns.iteritems():
       pattern_count += 1
-- 
2.43.0


From e272733464dd72d32b08e7ab557e8da6dbc7a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:38 +0000
Subject: [PATCH 92/94] fix: import shapes into feeds with trips of less than
 two stops

---
 shape_importer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shape_importer.py b/shape_importer.py
index 1161bc2..8ffc5a0 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -218,6 +218,9 @@ def main(key_cols):
     for pattern_id, trips in patterns.iteritems():
       pattern_count += 1
       pattern = trips[0].GetPattern()
+      if len(pattern) < 2:
+        # There is nothing to match
+        continue
 
       poly_points = [shapelib.Point.FromLatLng(p.stop_lat, p.stop_lon)
                      for p in pattern]
-- 
2.43.0


From fac504b491e77b449b4ead776d190b606b9654c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:38 +0000
Subject: [PATCH 93/94] fix: do not look up a column without a name when there
 are no key columns

---
 shape_importer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shape_importer.py b/shape_importer.py
index 8ffc5a0..8e36ba8 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -289,6 +289,7 @@ if __name__ == '__main__':
       PrintColumns(arg)
     sys.exit(0)
 
-  key_cols = options.keycols.split(',')
+  # Without key columns the lines are named by file and number
+  key_cols = options.keycols and options.keycols.split(',')
 
   main(key_cols)
-- 
2.43.0


From 68c38e75ac05e47c911824d0652302c8c4d62b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:38 +0000
Subject: [PATCH 94/94] fix: do not give imported shapes the id of another
 shape of the feed

---
 shape_importer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shape_importer.py b/shape_importer.py
index 8e36ba8..a4b1b5b 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -206,7 +206,9 @@ def main(key_cols):
 
   print('Loading GTFS from %s...' % options.source_gtfs)
   schedule = transitfeed.Loader(options.source_gtfs).Load()
+  own_shape_ids = set(shape.shape_id for shape in schedule.GetShapeList())
   shape_count = 0
+  shape_number = 0
   pattern_count = 0
 
   verbosity = options.verbosity
@@ -253,9 +255,12 @@ def main(key_cols):
                                      verbosity=verbosity)
       if shape_match:
         shape_count += 1
-        # Rename shape for readability.
+        # Rename shape for readability, but not to that of another shape.
+        shape_number += 1
+        while "shape_%d" % shape_number in own_shape_ids:
+          shape_number += 1
         shape_match = shapelib.Poly(points=shape_match.GetPoints(),
-                                           name="shape_%d" % shape_count)
+                                    name="shape_%d" % shape_number)
         for trip in trips:
           try:
             shape = schedule.GetShape(shape_match.GetName())
-- 
2.43.0

