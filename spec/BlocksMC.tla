------------------------------ MODULE BlocksMC ------------------------------
(* A checker that goes through the trips of a block in the order of their     *)
(* start times and gives up on a trip at the first one that begins after its  *)
(* end: it reports exactly the conflicts, for every order of trips that start *)
(* together as long as an empty span comes first.                             *)
EXTENDS Blocks
CONSTANTS N, T
VARIABLES w, order, x, y, out
vars == <<w, order, x, y, out>>
P(a, b, D) == [start |-> a, end |-> b, dow |-> [i \in 1..7 |-> i \in D], exc |-> <<>>]
Pers == <<P(0, 6, {1, 2}), P(0, 6, {2, 3}), [P(0, 6, {3}) EXCEPT !.exc = <<TRUE, FALSE>>]>>
TripSet == {[block |-> "A", per |-> p, route |-> TRUE, st |-> <<<<a, a>>, <<b, b>>>>] : p \in 0..Len(Pers), a \in 0..T, b \in 0..T}
Ok(t) == From(t) <= To(t)
Before(a, b) == From(a) < From(b) \/ (From(a) = From(b) /\ To(a) <= To(b))
Orders(ts) == {p \in [1..N -> 1..N] : {p[i] : i \in 1..N} = 1..N /\ \A i \in 1..(N - 1) : Before(ts[p[i]], ts[p[i + 1]])}
Init == /\ w \in {[per |-> Pers, trips |-> ts] : ts \in [1..N -> {t \in TripSet : Ok(t)}]}
        /\ order \in Orders(w.trips) /\ x = 1 /\ y = 2 /\ out = {}
A == w.trips[order[x]]
B == w.trips[order[y]]
Pair(i, j) == IF i < j THEN <<i, j>> ELSE <<j, i>>
Sweep == /\ x < N
         /\ IF y > N \/ To(A) <= From(B)
            THEN x' = x + 1 /\ y' = x + 2 /\ out' = out
            ELSE /\ x' = x /\ y' = y + 1
                 /\ out' = IF SameDay(w, A, B) THEN out \cup {Pair(order[x], order[y])} ELSE out
         /\ UNCHANGED <<w, order>>
Next == Sweep
Sound == out \subseteq Conflicts(w)
Complete == x = N => out = Conflicts(w)
=============================================================================
