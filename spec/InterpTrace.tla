----------------------------- MODULE InterpTrace -----------------------------
EXTENDS Interp, TraceIO
VARIABLES c, l, s
CStart(case) == <<>>
CPost(z, e) == z
CClauses(z, y, e) == <<
  <<"rejected exactly without end times", e.o.raised = Rejected(e.ts)>>,
  <<"every stop once in order", (~Rejected(e.ts)) => [i \in DOMAIN e.o.list |-> e.o.list[i].i] = [i \in DOMAIN e.ts |-> i]>>,
  <<"timepoint marks", (~e.o.raised /\ Len(e.o.list) = Len(e.ts)) => \A i \in DOMAIN e.ts : e.o.list[i].tp = (e.ts[i] # None)>>,
  <<"times", (~e.o.raised /\ ~Rejected(e.ts) /\ Len(e.o.list) = Len(e.ts)) =>
        \A i \in DOMAIN e.ts : IsTime(e.ts, e.legs, i, e.o.list[i].secs, e.tol)>>,
  <<"the stop's own listing", (~e.o.raised /\ Len(e.o.list) = Len(e.ts)) => e.o.bystop = [i \in DOMAIN e.ts |-> e.o.list[i].secs]>>
  >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
