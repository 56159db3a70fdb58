--------------------------- MODULE RegistryTrace ---------------------------
EXTENDS Registry, TraceIO, SequencesExt
VARIABLES c, l, s
CStart(case) == Empty
X(e) == [e.x EXCEPT !.cols = ToSet(@)]
\* the default entities the operation called for, with the ids observed
Dflt(w, e) ==
  LET a == IF "agency" \in ToSet(e.needs) THEN GetDefault(w, "agency", e.o.made.agency, e.x.tag, {"agency_id"}) ELSE w
  IN IF "service" \in ToSet(e.needs) THEN GetDefault(a, "service", e.o.made.service, e.x.tag, {}) ELSE a
\* the object after ids and references have been filled in
Full(w, d, e) ==
  LET x == X(e)
      y == IF e.auto THEN [x EXCEPT !.id = e.o.id] ELSE x
      z == IF e.op = "make" /\ x.kind = "route" THEN [y EXCEPT !.ref = IF d.def.agency = None THEN "" ELSE d.def.agency] ELSE y
  IN IF e.op = "make" /\ x.kind = "trip" /\ "service" \in ToSet(e.needs)
     THEN [z EXCEPT !.service = IF d.def.service = None THEN "" ELSE d.def.service] ELSE z
CPost(w, e) ==
  CASE e.op \in {"add", "make"} -> LET d == Dflt(w, e) IN Add(d, Full(w, d, e))
    [] e.op = "default" -> Dflt(w, e)
    [] e.op = "new" -> NewDefault(w, e.x.kind, IF e.auto THEN e.o.id ELSE e.x.id, e.x.tag, ToSet(e.x.cols))
    [] e.op = "set" -> SetDefault(w, X(e))
    [] OTHER -> w
Same(p, q) == ToSet(p) = ToSet(q) /\ Len(p) = Len(q)
Pairs(st, k) == {<<i, st.reg[k][i]>> : i \in Ids(st, k)}
Clauses0(w, y, e) ==
  LET d == Dflt(w, e)  x == Full(w, d, e) IN
  (CASE e.op \in {"add", "make"} -> <<
         <<"reported", Same(e.o.rep, AddReport(d, x) \o (IF x.kind = "trip" /\ e.validate /\ ~Refused(d, x) THEN TripReport(d, x) ELSE <<>>))>>,
         <<"a made-up id is new", e.auto => e.o.id \notin Ids(w, x.kind) /\ e.o.id # "">>,
         <<"linked to the schedule exactly if added", e.o.linked = (x.kind \in {"agency", "stop", "route", "trip"} /\ ~Refused(d, x))>> >>
     [] e.op = "default" -> << <<"the default", LET k == e.needs[1] IN e.o.id = Default(y, k)>>, <<"reported", e.o.rep = <<>> >> >>
     [] e.op = "new" -> << <<"a made-up id is new", e.auto => e.o.id \notin Ids(w, e.x.kind) /\ e.o.id # "">>,
                          <<"reported", e.o.rep = <<>> >> >>
     [] e.op = "set" -> << <<"reported", e.o.rep = <<>> >> >>)
  \o << <<"a made-up default id is new", \A k \in ToSet(e.needs) : Makes(w, k) => e.o.made[k] \notin Ids(w, k) \cup {""}>> >>
  \o << <<"listings", \A k \in Kinds : ToSet(e.o.state.lists[k]) = Pairs(y, k) /\ Len(e.o.state.lists[k]) = Cardinality(Ids(y, k))>>,
        <<"look-ups", \A k \in Kinds : ToSet(e.o.state.looks[k]) = Pairs(y, k)>>,
        <<"trips of the routes", {<<r.id, r.trips>> : r \in ToSet(e.o.state.trips)} = {<<r, y.trips[r]>> : r \in DOMAIN y.trips}>>,
        <<"columns in use", \A k \in DOMAIN y.cols : ToSet(e.o.state.cols[k]) = y.cols[k] /\ Len(e.o.state.cols[k]) = Cardinality(y.cols[k])>>,
        <<"columns keep their order", e.o.kept>> >>
CClauses(w, y, e) == Clauses0(w, y, e)
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
