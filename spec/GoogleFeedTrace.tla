--------------------------- MODULE GoogleFeedTrace ---------------------------
EXTENDS GoogleFeed, TraceIO
VARIABLES c, l, s
CStart(case) == case.w
CPost(w, e) == Edit(w, e)
Bags(w, t, o) == Len(o) = Len(w[t]) /\ \A i \in DOMAIN w[t] : SameBag(o[i], ReportsOf(w, t, i))
AllOf(w) == Again(w) \o FlattenSeq([i \in DOMAIN w.fares |-> FareReports(w.fares[i], w.ags)])
Kept(w, k) == /\ k.stops = [i \in DOMAIN w.stops |-> <<w.stops[i].vehicle.num, TypeOf(w.stops[i]), w.stops[i].code>>]
              /\ k.fares = [i \in DOMAIN w.fares |-> w.fares[i].agency]
              /\ \A i \in DOMAIN w.routes : k.routes[i][1] = w.routes[i].type.num /\ (w.routes[i].isnum => k.routes[i][2] = w.routes[i].milli)
CClauses(v, w, e) ==
  CASE e.op = "load" -> << <<"reports on stops", Bags(v, "stops", e.o.stops)>>, <<"reports on routes", Bags(v, "routes", e.o.routes)>>, <<"reports on fares", Bags(v, "fares", e.o.fares)>>,
                           <<"loaded values", Kept(w, e.o.kept)>> >>
    [] e.op = "validate" -> << <<"reports", SameBag(e.o.all, IF e.children THEN Again(w) ELSE <<>>)>>,
                               <<"unused stops", Len(e.o.unused) = Cardinality(Unused(w)) /\ Elems(e.o.unused) = Unused(w)>>,
                               <<"too fast", SameBag(e.o.fast, SetToSeq({w.routes[i].id : i \in {k \in DOMAIN w.routes : TooFast(w.routes[k])}}))>> >>
    [] e.op = "reload" -> << <<"reports on the written feed", SameBag(e.o.all, AllOf(w))>>, <<"written values", Kept(w, e.o.kept)>> >>
    [] e.op \in {"stop", "route"} -> <<>>
    [] OTHER -> << <<"known operation", FALSE>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
