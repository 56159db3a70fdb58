----------------------------- MODULE ConsistMC ------------------------------
(* Small schedules examined one route and one trip at a time, in any order,  *)
(* keeping the first of each name, of each kind of trip, of each stop.        *)
EXTENDS Consist
CONSTANTS RouteCount, TripCount
VARIABLES w, todoR, todoT, firstR, firstT, firstS, names, same, mixed
vars == <<w, todoR, todoT, firstR, firstT, firstS, names, same, mixed>>
R(i, n, t) == [id |-> i, short |-> n, long |-> "", slow |-> n, llow |-> "", desc |-> "", colour |-> <<>>, text |-> <<>>, type |-> t, agency |-> ""]
T(r, s, q) == [id |-> "t", route |-> r, service |-> s, start |-> 0, stops |-> q, shape |-> 0]
Worlds == {[ags |-> <<>>, lang |-> "", routes |-> [i \in 1 .. RouteCount |-> R(i, q[i][1], q[i][2])], trips |-> p, shapes |-> <<>>, dups |-> TRUE] :
             q \in [1 .. RouteCount -> {"a", "b"} \X {0, 1, 3}],
             p \in [1 .. TripCount -> {T(r, s, x) : r \in 1 .. RouteCount, s \in {1}, x \in {<<1>>, <<1, 2>>}}]}
Init == /\ w \in Worlds /\ todoR = DOMAIN w.routes /\ todoT = DOMAIN w.trips
        /\ firstR = [n \in {} |-> 0] /\ firstT = [n \in {} |-> 0] /\ firstS = [n \in {} |-> 0]
        /\ names = <<>> /\ same = <<>> /\ mixed = <<>>
Put(f, k, v) == (k :> v) @@ f
LookR == \E i \in todoR :
  /\ todoR' = todoR \ {i}
  /\ IF NameOf(w, i) \in DOMAIN firstR THEN names' = Append(names, {i, firstR[NameOf(w, i)]}) /\ UNCHANGED firstR
     ELSE firstR' = Put(firstR, NameOf(w, i), i) /\ UNCHANGED names
  /\ UNCHANGED <<w, todoT, firstT, firstS, same, mixed>>
\* a stop: the first route of either kind there, and whether it has been reported
RECURSIVE Visit(_, _, _, _)
Visit(f, q, t, k) ==
  IF k > Len(w.trips[t].stops) THEN <<f, q>>
  ELSE LET s == w.trips[t].stops[k]  r == w.trips[t].route  y == RouteType(w, t) IN
       IF y \notin {1, 3} THEN <<f, q>>
       ELSE IF s \notin DOMAIN f THEN Visit(Put(f, s, <<r, FALSE>>), q, t, k + 1)
       ELSE IF w.routes[f[s][1]].type # y /\ ~f[s][2]
            THEN Visit(Put(f, s, <<f[s][1], TRUE>>), Append(q, IF y = 3 THEN [stop |-> s, subway |-> f[s][1], bus |-> r] ELSE [stop |-> s, subway |-> r, bus |-> f[s][1]]), t, k + 1)
            ELSE Visit(f, q, t, k + 1)
LookT == \E i \in todoT :
  /\ todoR = {} /\ todoT' = todoT \ {i}
  /\ IF KeyOf(w, i) \in DOMAIN firstT THEN same' = Append(same, {i, firstT[KeyOf(w, i)]}) /\ UNCHANGED firstT
     ELSE firstT' = Put(firstT, KeyOf(w, i), i) /\ UNCHANGED same
  /\ LET v == Visit(firstS, mixed, i, 1) IN firstS' = v[1] /\ mixed' = v[2]
  /\ UNCHANGED <<w, todoR, firstR, names>>
Next == LookR \/ LookT
Spec == Init /\ [][Next]_vars
Done == todoR = {} /\ todoT = {}
Names == Done => NamesOk(w, names)
Trips == Done => TripsOk(w, same)
Kinds == Done => MixedOk(w, mixed)
\* no more than the number of entities is reported, and nothing without cause
Sparse == Len(names) < RouteCount /\ Len(same) < TripCount
=============================================================================
