----------------------------- MODULE StopSeqMC -----------------------------
EXTENDS StopSeq
CONSTANTS N
VARIABLES w, t
Rows == {[seq |-> 0, arr |-> a, dep |-> b, stop |-> s, d |-> d, pk |-> None, do |-> None] :
          a \in {None, 0, 60, 90}, b \in {None, 0, 60, 90}, s \in {1, 2}, d \in {NoDist, -5, 0, 10}}
Ok(r) == (r.d = NoDist \/ r.stop = 1) /\ (r.arr # None \/ r.dep = None \/ r.dep = 60)
Init == /\ w = [type |-> <<3>>, stops |-> <<0, 2000>>, shape |-> <<[p |-> 0, d |-> 0], [p |-> 4000, d |-> 5]>>, trips |-> <<>>, dup |-> FALSE]
        /\ t = [route |-> 1, service |-> 1, shaped |-> TRUE, freq |-> FALSE, rows |-> <<>>]
Next == /\ Len(t.rows) < N /\ w' = w
        /\ \E r \in Rows : Ok(r) /\ t' = [t EXCEPT !.rows = Append(@, [r EXCEPT !.seq = Len(t.rows) + 1])]
Reached == {i \in DOMAIN t.rows : t.rows[i].arr # None}
\* fully timed and in order: nothing runs backwards, and conversely
AllFull == \A i \in DOMAIN t.rows : Full(t.rows[i]) \/ Untimed(t.rows[i])
InOrder == \A i, j \in Reached : i < j => t.rows[j].arr >= t.rows[i].dep
BackExact == AllFull => (BackInTime(w, t) = <<>> <=> \A i, j \in Reached : (i < j /\ \A k \in Reached : (i < k /\ k < j) => FALSE) => t.rows[j].arr >= t.rows[i].dep)
BackSound == (AllFull /\ InOrder) => BackInTime(w, t) = <<>>
FastNeedsDistanceOrTie == \A f \in ToSet(Fast(w, t)) : f[3] >= 0 /\ (f[4] > 0 \/ f[3] = 0)
\* distances: none wrong iff strictly growing from a non-negative one
Given == SelectSeq(t.rows, LAMBDA r : r.d >= 0)
DistExact == DistDefects(t) = <<>> <=> \A i \in DOMAIN Given : i > 1 => Given[i].d > Given[i - 1].d
DistWarn == \A b \in ToSet(DistDefects(t)) : b[2] = "W" => b[1] >= 0
Moments == \A m \in SameMoment(t) : m[1] > 5 /\ m[1] <= Len(t.rows)
OffExact == \A p \in ToSet(OffShape(w, t)) : t.rows[p[2]].d >= 0
=============================================================================
