--------------------------- MODULE MergeCalTrace ----------------------------
(* C17: overlapping calendars stop the merge, a cut-off date divides service. *)
EXTENDS MergeObs
VARIABLES c, l, s
CStart(case) == [low |-> case.low]
CPost(w, e) == w
CClauses(w, y, e) ==
  IF e.op # "merge" THEN <<>>
  ELSE
  LET o == e.o  A == Sched(o.a0)  B == Sched(o.b0)  M == Sched(o.m)  m == Maps(o)
      has == "service" \in ToSet(e.mergers)
      n == Cardinality({i \in DOMAIN o.probs : o.probs[i].cls = "CalendarsNotDisjoint"})
      full == o.ok /\ has /\ OneEach(A, B, m, "service") /\ (Image(m.a.service) \cup Image(m.b.service)) \subseteq DOMAIN M.cal IN
  << <<"stopped exactly if calendars overlap", o.ok = (~has \/ e.cut >= 0 \/ ~Overlap(A, B))>>,
     <<"stopping is reported", (n = 1) <=> ~o.ok>>,
     <<"stopped before the calendars", o.ok \/ (M.cal = <<>> /\ M.tab["trips.txt"] = {})>>,
     <<"every calendar has a representative", ~(o.ok /\ has) \/ full>>,
     <<"old service before the date", ~full \/ \A i \in DOMAIN A.cal : Days1(M.cal[m.a.service[i]]) = Before(A.cal[i], e.cut)>>,
     <<"new service from the date on", ~full \/ \A i \in DOMAIN B.cal : Days1(M.cal[m.b.service[i]]) = From(B.cal[i], e.cut)>>,
     <<"calendars on their side are unchanged", ~full \/
        /\ \A i \in DOMAIN A.cal : WhollyBefore(A.cal[i], e.cut) => M.cal[m.a.service[i]] = A.cal[i]
        /\ \A i \in DOMAIN B.cal : WhollyFrom(B.cal[i], e.cut) => M.cal[m.b.service[i]] = B.cal[i]>>,
     <<"merged calendars are disjoint", ~full \/ \A i \in DOMAIN A.cal, j \in DOMAIN B.cal : ~RangesMeet(M.cal[m.a.service[i]], M.cal[m.b.service[j]])>>,
     <<"merged calendars are sound", ~full \/ \A i \in DOMAIN M.cal : ~Cal!EndBeforeStart(M.cal[i]) /\ ((M.cal[i].start = -1) <=> (M.cal[i].end = -1))>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
