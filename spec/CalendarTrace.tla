---------------------------- MODULE CalendarTrace ----------------------------
EXTENDS Calendar, TraceIO
VARIABLES c, l, s
ToSet(q) == {q[i] : i \in DOMAIN q}
CStart(case) == Empty
CPost(x, e) == Do(x, e)
\* e.o: active (days of e.probe answered active by the single-date query),
\* active2 (same, with a date object), dates, range, row, drows, ...
CClauses(x, t, e) == <<
  <<"single-date query", ToSet(e.o.active) = {d \in ToSet(e.probe) : Active(t, d)}>>,
  <<"single-date query with date object", ToSet(e.o.active2) = {d \in ToSet(e.probe) : Active(t, d)}>>,
  <<"list of active dates", ToSet(e.o.dates) = ActiveDays(t)>>,
  <<"list of active dates has no repeats", Len(e.o.dates) = Cardinality(ToSet(e.o.dates))>>,
  <<"list of active dates is sorted", \A i \in 1..(Len(e.o.dates) - 1) : e.o.dates[i] < e.o.dates[i + 1]>>,
  <<"first and last date", e.o.range = DateRange(t)>>,
  <<"calendar row", e.o.row = CalendarRow(t)>>,
  <<"calendar date rows", ToSet(e.o.drows) = DateRows(t)>>,
  <<"calendar date rows are unique", Len(e.o.drows) = Cardinality(DateRows(t))>>,
  <<"dates described by the rows", ToSet(e.o.redates) = ActiveDays(t)>>,
  <<"exception queries", /\ ToSet(e.o.excadd) = ToSet(e.probe) \cap Added(t)
                         /\ ToSet(e.o.excrem) = ToSet(e.probe) \cap Removed(t)
                         /\ e.o.hasexc = (DOMAIN t.exc # {}) /\ e.o.hasadd = (Added(t) # {})>>,
  <<"weekday attributes", e.o.dow = t.dow>>,
  <<"duplicate exception warning", e.o.dup = (IF DuplicateException(x, e) THEN 1 ELSE 0)>>,
  <<"end before start report", e.o.endstart = (IF EndBeforeStart(t) THEN 1 ELSE 0)>>,
  <<"no service report", e.o.noservice = (IF NoService(t) THEN 1 ELSE 0)>>,
  <<"no other report", e.o.others = 0>>
  >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
