------------------------------ MODULE Unusual ------------------------------
(* The unusual-trip filter.  A feed is w = [types, trips]: types[i] is the type *)
(* of route i, trips[j] = [route, stops, mark], mark one of "", "0", "1" or     *)
(* any other text.  A run of the filter is e = [num, den, force, type]: the     *)
(* threshold num/den, whether marks are overridden, and the type of route asked *)
(* for (-1: all).                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

OfRoute(w, r) == {j \in DOMAIN w.trips : w.trips[j].route = r}
Like(w, j) == {k \in OfRoute(w, w.trips[j].route) : w.trips[k].stops = w.trips[j].stops}
\* the share of the route's trips with the trip's pattern is below the threshold
Rare(w, e, j) == Cardinality(Like(w, j)) * e.den < e.num * Cardinality(OfRoute(w, w.trips[j].route))
Asked(w, e, j) == e.type = -1 \/ w.types[w.trips[j].route] = e.type
Mark(w, e, j) ==
  LET m == w.trips[j].mark IN
  IF ~Asked(w, e, j) THEN m
  ELSE IF e.force THEN (IF Rare(w, e, j) THEN "1" ELSE "0")
  ELSE IF m # "" THEN m
  ELSE IF Rare(w, e, j) THEN "1" ELSE ""     \* without a mark a trip counts as usual
Filter(w, e) == [w EXCEPT !.trips = [j \in DOMAIN w.trips |-> [w.trips[j] EXCEPT !.mark = Mark(w, e, j)]]]
Do(w, e) ==
  CASE e.op \in {"filter", "main"} -> Filter(w, e)
    [] e.op = "mark" -> [w EXCEPT !.trips[e.trip].mark = e.mark]
    [] e.op = "add"  -> [w EXCEPT !.trips = Append(@, e.t)]
    [] e.op = "visit" -> [w EXCEPT !.trips[e.trip].stops = Append(@, e.stop)]
    [] OTHER -> w
Marks(w) == [j \in DOMAIN w.trips |-> w.trips[j].mark]
=============================================================================
