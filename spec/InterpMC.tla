------------------------------ MODULE InterpMC ------------------------------
(* All small patterns; each is printed for replay. *)
EXTENDS Interp, Json
CONSTANTS MaxStops, Times, Dists
VARIABLE p
Patterns == UNION {[ts : [1..n -> Times \cup {None}], legs : [1..(n - 1) -> Dists]] : n \in 1..MaxStops}
Init == p \in Patterns
Next == FALSE /\ p' = p
Monotone(ts) == \A i, j \in DOMAIN ts : (i < j /\ ts[i] # None /\ ts[j] # None) => ts[i] <= ts[j]
\* The rule determines times that exist, are unique up to rounding, keep the
\* given ones, and never run backwards when the given ones do not.
Cand(i) == {v \in 0..Max(Times) : IsTime(p.ts, p.legs, i, v, 0)}
Exists == ~Rejected(p.ts) => \A i \in DOMAIN p.ts : Cand(i) # {} /\ Cardinality(Cand(i)) <= 2
NotBackwards == (~Rejected(p.ts) /\ Monotone(p.ts)) =>
   \A i \in 1..(Len(p.ts) - 1) : Min(Cand(i)) <= Min(Cand(i + 1)) /\ Max(Cand(i)) <= Max(Cand(i + 1))
Emit == PrintT(<<"BEH", ToJson(p)>>)
=============================================================================
