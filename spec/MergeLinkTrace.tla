--------------------------- MODULE MergeLinkTrace ---------------------------
(* C15: every entity has one representative with its values and links.        *)
EXTENDS MergeObs
VARIABLES c, l, s
CStart(case) == [low |-> case.low]
CPost(w, e) == w
Ks(e, ok) == SelectSeq(Kinds, LAMBDA k : k \in RanAll(e, ok))
Fs(e, ok) == SelectSeq(Order, LAMBDA f : Needs(f) \in RanAll(e, ok))
\* C15 leaves the calendars of a merge with a cut-off date to C17
CClauses(w, y, e) ==
  IF e.op # "merge" THEN <<>>
  ELSE
  LET o == e.o  A == Sched(o.a0)  B == Sched(o.b0)  M == Sched(o.m)  m == Maps(o)  ks == Ks(e, o.ok)  fs == Fs(e, o.ok)
      mapped == \A i \in DOMAIN ks : OneEach(A, B, m, ks[i]) /\ Apart(m, ks[i])
      zones == "stop" \notin ToSet(ks) \/ GoodZones(A, B, m)
  IN
  [i \in DOMAIN ks |-> <<"every " \o ks[i] \o " has one representative", OneEach(A, B, m, ks[i]) /\ Apart(m, ks[i])>>]
  \o [i \in DOMAIN ks |-> <<"the merged feed holds exactly the representatives: " \o ks[i],
                            M.ids[ks[i]] = Image(m.a[ks[i]]) \cup Image(m.b[ks[i]]) /\ IsInjective(o.m.ids[ks[i]])>>]
  \o << <<"zones are kept apart", ~mapped \/ zones>> >>
  \o [i \in DOMAIN fs |-> <<"the rows of " \o fs[i] \o " follow",
        \/ ~mapped \/ ~zones
        \/ (fs[i] \in {"calendar.txt", "calendar_dates.txt"} /\ e.cut >= 0)
        \/ (Same1(A, B, M, m, fs[i]) /\ NoTwins(o.m, fs[i]))>>]
  \o << <<"blocks are kept apart", ~mapped \/ "trip" \notin ToSet(ks) \/ Blocks(A, B, M, m)>>,
        <<"nothing else appears", \A f \in Files : Needs(f) \notin RanAll(e, o.ok) => M.tab[f] = {}>>,
        <<"routes know their trips", "trip" \notin ToSet(ks) \/
           \A p \in ToSet(o.m.links) : ToSet(p[2]) = {x.trip_id : x \in {x \in M.tab["trips.txt"] : x.route_id = p[1]}} /\ IsInjective(p[2])>>,
        <<"stops know their trips", "trip" \notin ToSet(ks) \/
           \A p \in ToSet(o.m.at) : ToSet(p[2]) = {x.trip_id : x \in {x \in M.tab["stop_times.txt"] : x.stop_id = p[1]}}>>,
        <<"the inputs are unchanged", \A f \in Files : (f \in {"calendar.txt", "calendar_dates.txt"} /\ e.cut >= 0)
           \/ (Tab(o.a0.ents)[f] = Tab(o.a1.ents)[f] /\ Tab(o.b0.ents)[f] = Tab(o.b1.ents)[f] /\ Len(Of(o.a0.ents, f)) = Len(Of(o.a1.ents, f)) /\ Len(Of(o.b0.ents, f)) = Len(Of(o.b1.ents, f)))>>,
        <<"the inputs keep their ids", o.a0.ids = o.a1.ids /\ o.b0.ids = o.b1.ids>>,
        <<"no errors in the merged feed", \A x \in ToSet(o.merr) \cup (IF "verr" \in DOMAIN o THEN ToSet(o.verr) \cup ToSet(o.werr) ELSE {}) : x[3] = "agency_timezone">>,
        <<"the merged feed can be written and loaded", "back" \notin DOMAIN o \/ (Tab(o.back) = M.tab)>>,
        <<"the program writes the merged feed", "wrote" \notin DOMAIN o \/ (o.wrote = o.ok /\ (o.ok => Tab(o.file) = M.tab))>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
