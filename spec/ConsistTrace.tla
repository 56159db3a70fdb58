---------------------------- MODULE ConsistTrace ----------------------------
EXTENDS Consist, TraceIO
VARIABLES c, l, s
CStart(case) == case.w
CPost(w, e) == Edit(w, e)
Sets(q) == [i \in DOMAIN q |-> Elems(q[i])]
Zone(w, q) == IF Cardinality(Zones(w)) > 1 THEN Len(q) = 1 /\ Elems(q[1]) = Zones(w) ELSE q = <<>>
CClauses(v, w, e) ==
  IF e.op = "load" THEN << <<"defects of routes, at their rows", \A i \in DOMAIN w.routes : SameBag(e.o.rows[i], RouteDefects(w.routes[i]))>> >>
  ELSE IF e.op # "validate" THEN <<>>
  ELSE LET o == e.o IN
  << <<"time zones", Zone(w, o.zones)>>,
     <<"languages", Len(o.langs) = Cardinality(Foreign(w)) /\ Elems(o.langs) = {w.ags[i].id : i \in Foreign(w)}>>,
     <<"agencies without an id", Len(o.idless) = Cardinality(Nameless(w)) /\ Elems(o.idless) = {w.ags[i].name : i \in Nameless(w)}>>,
     <<"unknown agencies", Len(o.orphans) = Cardinality(Orphans(w)) /\ Elems(o.orphans) = {<<w.routes[i].id, w.routes[i].agency>> : i \in Orphans(w)}>>,
     <<"names used twice", NamesOk(w, Sets(o.names))>>,
     <<"duplicate trips", TripsOk(w, [i \in DOMAIN o.same |-> {o.same[i].a, o.same[i].b}])>>,
     <<"duplicate trips' routes", \A i \in DOMAIN o.same : w.trips[o.same[i].a].route = o.same[i].ra /\ w.trips[o.same[i].b].route = o.same[i].rb>>,
     <<"stops of subway and bus", MixedOk(w, o.mixed)>>,
     <<"unused shapes", IF Unused(w) = {} THEN o.unused = <<>> ELSE Len(o.unused) = 1 /\ Elems(o.unused[1]) = {w.shapes[i] : i \in Unused(w)}>>,
     <<"defects of routes", SameBag(o.rows, IF e.children THEN AllDefects(w) ELSE <<>>)>>,
     <<"levels", o.levels>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
