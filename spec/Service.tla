------------------------------ MODULE Service ------------------------------
(* Service of a whole feed.  w is a record                                    *)
(*   per   : sequence of calendars (see Calendar)                              *)
(*   trips : sequence of [per (index), stops (number of stop times), runs      *)
(*           (number of headway runs, 0 if not headway based)]                 *)
(*   info  : [start, end] of feed_info, None if absent                         *)
EXTENDS Calendar, SequencesExt

\* ----------------------------------------------------------------- date range
Lo(w) == {DateRange(w.per[i])[1] : i \in DOMAIN w.per} \ {None}
Hi(w) == {DateRange(w.per[i])[2] : i \in DOMAIN w.per} \ {None}
HasDates(w) == Lo(w) # {} /\ Hi(w) # {}
FeedRange(w) == IF ~HasDates(w) THEN <<None, None>>
  ELSE <<IF w.info.start # None THEN w.info.start ELSE Min(Lo(w)),
         IF w.info.end # None THEN w.info.end ELSE Max(Hi(w))>>
\* Where the first (k = 1) / last (k = 2) date comes from; a set, as two
\* calendars may begin or end on the same date for different reasons.
Origins(w, k) ==
  LET d == IF k = 1 THEN Min(Lo(w)) ELSE Max(Hi(w))
      who == {i \in DOMAIN w.per : DateRange(w.per[i])[k] = d}
  IN IF ~HasDates(w) THEN {"none"}
     ELSE IF (k = 1 /\ w.info.start # None) \/ (k = 2 /\ w.info.end # None) THEN {"info"}
     ELSE UNION {IF d \in Added(w.per[i]) THEN {"exception"}
                 ELSE IF d \in DOMAIN w.per[i].exc THEN {"exception", "calendar"}
                 ELSE {"calendar"} : i \in who}

\* ------------------------------------------------------------ service per date
ActiveOn(w, d) == {i \in DOMAIN w.per : Active(w.per[i], d)}
RunsOf(t) == IF t.runs = 0 THEN 1 ELSE t.runs
TripsOn(w, d) == FoldSeq(LAMBDA t, n : IF Active(w.per[t.per], d) THEN n + RunsOf(t) ELSE n, 0, w.trips)
DeparturesOn(w, d) == FoldSeq(LAMBDA t, n : IF Active(w.per[t.per], d) THEN n + RunsOf(t) * (t.stops - 1) ELSE n, 0, w.trips)

\* -------------------------------------------------------------------- warnings
Expires(w, today) == HasDates(w) /\ FeedRange(w)[2] < today + 60
Future(w, today) == HasDates(w) /\ FeedRange(w)[1] > today
NoExceptions(w) == /\ HasDates(w)
                   /\ FeedRange(w)[2] - FeedRange(w)[1] >= 182
                   /\ \A i \in DOMAIN w.per : DOMAIN w.per[i].exc = {}
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
\* The maximal runs of at least gap days without a trip, among the days from
\* Larger(first day, today - gap + 1) up to, not including,
\* Smaller(last day, today + 365).
GapDays(w, today, gap) == Larger(FeedRange(w)[1], today - (gap - 1))..(Smaller(FeedRange(w)[2], today + 365) - 1)
Gaps(w, today, gap) ==
  IF ~HasDates(w) THEN {}
  ELSE LET days == GapDays(w, today, gap)
           idle == {d \in days : TripsOn(w, d) = 0}
           first == {d \in idle : (d - 1) \notin idle}
           last(d) == Min({x \in idle : x >= d /\ (x + 1) \notin idle})
       IN {<<d, last(d), last(d) - d + 1>> : d \in {x \in first : last(x) - x + 1 >= gap}}
=============================================================================
