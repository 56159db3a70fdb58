------------------------------ MODULE StopsMC ------------------------------
(* Looking for close pairs along the sorted latitudes, giving up on a stop at  *)
(* the first one too far north, finds exactly the close pairs; the relation    *)
(* and all the reports do not depend on the order of the stops.                *)
EXTENDS Stops
CONSTANTS N
VARIABLES S, order, x, y, out
Pts == {<<0, 0>>, <<0, 15>>, <<15, 0>>, <<15, 15>>, <<0, 30>>, <<0, 2000>>}
Mk(p, t, q, u) == [type |-> t, where |-> "at", x |-> p[1], y |-> p[2], parent |-> q, used |-> u, name |-> "a", desc |-> "", bad |-> {}, tz |-> FALSE, origin |-> FALSE]
One == {Mk(p, t, q, u) : p \in Pts, t \in {0, 1}, q \in 0..N, u \in {0, 1}}
Perms == {p \in [1..N -> 1..N] : {p[i] : i \in 1..N} = 1..N}
Init == /\ S \in {s \in [1..N -> One] : \A i \in 1..N : s[i].parent # i}
        /\ order \in {p \in Perms : \A i \in 1..(N - 1) : S[p[i]].y <= S[p[i + 1]].y}
        /\ x = 1 /\ y = 2 /\ out = {}
Next == /\ x < N
        /\ IF y > N \/ S[order[y]].y - S[order[x]].y >= 20
           THEN x' = x + 1 /\ y' = x + 2 /\ out' = out
           ELSE /\ x' = x /\ y' = y + 1
                /\ out' = IF S[order[x]].type = S[order[y]].type /\ Close(S[order[x]], S[order[y]]) THEN out \cup {{order[x], order[y]}} ELSE out
        /\ UNCHANGED <<S, order>>
SweepSound == out \subseteq (ClosePairs(S, 0) \cup ClosePairs(S, 1))
SweepComplete == x = N => out = ClosePairs(S, 0) \cup ClosePairs(S, 1)
\* at most one complaint about the parent of a stop
OneParentReport == \A i \in DOMAIN S : Cardinality({k \in {1, 2, 3} : i \in (CASE k = 1 -> NoParent(S) [] k = 2 -> ParentNoStation(S) [] OTHER -> {f[1] : f \in FarFromParent(S)})}) <= 1
StationsNotUnused == \A i \in Unused(S) : S[i].type = 0
OwnStationIsFine == \A p \in ForeignStation(S) : S[p[1]].parent # p[2]
=============================================================================
