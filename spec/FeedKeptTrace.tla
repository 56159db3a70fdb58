--------------------------- MODULE FeedKeptTrace ---------------------------
(* C02: every row is represented in the schedule or reported, nothing else is there. *)
EXTENDS FeedObs, TraceIO
VARIABLES c, l, s
CStart(case) == [Empty(case.lex, {case.ev[i].x : i \in 1..Len(case.ev) - 1}) EXCEPT !.kept = <<>>]
CPost(w, e) == IF e.op = "row" THEN Load(w, e.x) ELSE w
CClauses(w, y, e) ==
  IF e.op = "row" THEN
    << <<"a row that is not in the schedule is reported", Kept(w, e.x) \/ e.o.probs # <<>> \/ Superseded(w, e.x)>> >>
  ELSE
    [i \in DOMAIN Order |-> <<"rows of " \o Order[i] \o " are represented", RowsRepresented(w, e.o.ents, Order[i])>>] \o
    [i \in DOMAIN Order |-> <<"entities of " \o Order[i] \o " are rows of the feed", NothingElse(w, e.o.ents, Order[i])>>] \o
    << <<"entities are filed under their own ids", \A j \in DOMAIN e.o.ents : Filed(e.o.ents[j])>>,
       <<"routes list their trips", /\ DOMAIN e.o.links = OwnIds(w, "routes.txt")
                                    /\ \A id \in DOMAIN e.o.links : e.o.links[id] = TripsOf(w, id)>>,
       <<"missing parent stations are reported by validation", e.o.crashed # "" \/ NoParents(w) \subseteq ToSet(e.o.parents)>>,
       <<"services", ToSet(e.o.services) = w.ids.service /\ Len(e.o.services) = Cardinality(w.ids.service)>>,
       <<"shapes", ToSet(e.o.shapes) = w.ids.shape /\ Len(e.o.shapes) = Cardinality(w.ids.shape)>>,
       <<"zones", ToSet(e.o.zones) = w.ids.zone /\ Len(e.o.zones) = Cardinality(w.ids.zone)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
