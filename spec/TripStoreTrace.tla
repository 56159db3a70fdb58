--------------------------- MODULE TripStoreTrace ---------------------------
EXTENDS TripStore, TraceIO
VARIABLES c, l, s
CStart(case) == <<>>
Rec(o, t) == o.trips[CHOOSE i \in DOMAIN o.trips : o.trips[i].t = t]
Visiting(y, st) == {t \in DOMAIN y : st \in ToSet(Pattern(y[t]))}
CClauses(z, y, e) == <<
  <<"reports", e.o.reports = Reports(z, e)>>,
  <<"trips", {e.o.trips[i].t : i \in DOMAIN e.o.trips} = DOMAIN y>>,
  <<"stop times in order", \A t \in DOMAIN y : Rec(e.o, t).rows = y[t]>>,
  <<"count", \A t \in DOMAIN y : Rec(e.o, t).count = Len(y[t])>>,
  <<"start time", \A t \in DOMAIN y : y[t] # <<>> => Rec(e.o, t).start = StartTime(y[t])>>,
  <<"end time", \A t \in DOMAIN y : y[t] # <<>> => Rec(e.o, t).end = EndTime(y[t])>>,
  <<"time stops", \A t \in DOMAIN y : Rec(e.o, t).tstops = [i \in DOMAIN y[t] |-> <<y[t][i].arr, y[t][i].dep, y[t][i].stop>>]>>,
  <<"pattern", \A t \in DOMAIN y : Rec(e.o, t).pattern = Pattern(y[t])>>,
  <<"pattern identity", \A t, u \in DOMAIN y : (Rec(e.o, t).pid = Rec(e.o, u).pid) = (Pattern(y[t]) = Pattern(y[u]))>>,
  <<"trips of a stop", \A i \in DOMAIN e.o.stops : LET q == e.o.stops[i] IN
        \A t \in DOMAIN y : Cardinality({k \in DOMAIN q.trips : q.trips[k] = t}) = Cardinality({v \in Visits(y, q.stop) : v[1] = t})>>,
  <<"stop times of a stop", \A i \in DOMAIN e.o.stops : LET q == e.o.stops[i] IN
        IF \A t \in Visiting(y, q.stop) : Timed(y[t])
        THEN /\ ~q.raised
             /\ {<<q.tt[k].t, q.tt[k].i>> : k \in DOMAIN q.tt} = Visits(y, q.stop)
             /\ Len(q.tt) = Cardinality(Visits(y, q.stop))
             /\ \A k \in DOMAIN q.tt : LET r == y[q.tt[k].t][q.tt[k].i + 1] IN
                  /\ q.tt[k].tp = (Time(r) # None)
                  /\ (Time(r) # None) => q.tt[k].secs = Time(r)
        ELSE q.raised>>
  >>
CPost(z, e) == Do(z, e)
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
