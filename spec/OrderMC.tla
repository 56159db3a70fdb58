------------------------------- MODULE OrderMC -------------------------------
(* The rows of a feed's tables in any order: without conflicts the same rows *)
(* are kept, and the same kinds of faults are found.                         *)
EXTENDS FeedMC
Conflict(x, y) == x.f = y.f /\
  CASE x.f \in DOMAIN Idc -> x.r[Idc[x.f]] = y.r[Idc[x.f]]
    [] x.f = "calendar_dates.txt" -> x.r.service_id = y.r.service_id /\ x.r.date = y.r.date
    [] x.f = "shapes.txt" -> x.r.shape_id = y.r.shape_id /\ x.r.shape_pt_sequence = y.r.shape_pt_sequence
    [] x.f = "stop_times.txt" -> x.r.trip_id = y.r.trip_id /\ x.r.stop_sequence = y.r.stop_sequence
    [] x.f = "transfers.txt" -> x.r.from_stop_id = y.r.from_stop_id /\ x.r.to_stop_id = y.r.to_stop_id
    [] OTHER -> x.r = y.r
Sound(q) == \A i, j \in DOMAIN q : i < j => ~Conflict(q[i], q[j])
\* the rows in another order, numbered anew
Arranged(q, p) == [i \in DOMAIN q |-> [q[p[i]] EXCEPT !.n = 2 + Cardinality({j \in 1..i - 1 : q[p[j]].f = q[p[i]].f})]]
Orders(q) == {p \in [DOMAIN q -> DOMAIN q] : (\A i, j \in DOMAIN q : i # j => p[i] # p[j]) /\ \A i \in DOMAIN q : q[p[i]].f = q[i].f}
KeptRows(q) == LET w == Loaded(q) IN {[f |-> w.kept[i].f, r |-> w.kept[i].r] : i \in DOMAIN w.kept}
KindsOf(q) == UNION {{<<q[i].f, f.k, f.l, f.c>> : f \in Must(Before(q, i), q[i])} : i \in DOMAIN q}
OrderFree == Sound(rows) => \A p \in Orders(rows) : KeptRows(Arranged(rows, p)) = KeptRows(rows) /\ KindsOf(Arranged(rows, p)) = KindsOf(rows)
=============================================================================
