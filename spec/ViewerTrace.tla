---------------------------- MODULE ViewerTrace ----------------------------
EXTENDS ViewerAns, TraceIO
VARIABLES c, l, s
CStart(case) == Feed0(case.feed)
CPost(w, e) == IF e.op = "load" THEN Timed0(w, e.o.at) ELSE w
CClauses(w, y, e) ==
  IF e.op = "load" THEN << <<"every trip has its times", Len(e.o.at) = Len(w.trips) /\ \A t \in DOMAIN w.trips : Len(e.o.at[t]) = Len(w.trips[t].visits)>>,
                           <<"given times are kept", \A t \in DOMAIN w.trips : \A i \in DOMAIN w.trips[t].visits :
                               LET v == w.trips[t].visits[i] IN Timed(v) => e.o.at[t][i] = (IF v.arr # -1 THEN v.arr ELSE v.dep)>> >>
  ELSE << <<"the server runs on", e.o.alive>>,
          <<"one answer", e.o.status # 0 /\ (e.o.status = 200 => e.o.whole)>>,
          <<"the answer to " \o e.kind, Right(w, e)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
