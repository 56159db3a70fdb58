------------------------------ MODULE ShapeMC ------------------------------
EXTENDS Shape, Json, Randomization
CONSTANTS Seqs, Dists, MaxLen, Depth
VARIABLES sh, hist, added, rep
vars == <<sh, hist, added, rep>>
Pts == {[seq |-> q, lat |-> 47000 + 1000 * q + 100 * d, lon |-> 8000 - 100 * q * d, dist |-> d] : q \in Seqs, d \in Dists \cup {-1}}
Init == sh = <<>> /\ hist = <<>> /\ added = <<>> /\ rep = [seq |-> 0, dist |-> 0]
Add(p) == Len(sh) < MaxLen /\ \E i \in Places(sh, p) :
           /\ sh' = Insert(sh, i, p) /\ added' = Append(added, p) /\ rep' = Reports(sh, i, p)
Next == (\E p \in Pts : Add(p)) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars
View == <<sh, rep>>
\* exactly the points added, in order
Kept == /\ Len(sh) = Len(added) /\ Ordered(sh)
        /\ \A p \in Pts : Cardinality({i \in DOMAIN sh : sh[i] = p}) = Cardinality({i \in DOMAIN added : added[i] = p})
\* if no distance was ever reported, the known distances rise
PlacesFound == \A p \in Pts : Places(sh, p) # {} /\ (~Reused(sh, p) => Cardinality(Places(sh, p)) = 1)
Falling(s) == \E i, j \in DOMAIN s : i < j /\ Less(s[j].dist, s[i].dist)
DistReported == [][(Falling(sh') /\ ~Falling(sh)) => rep'.dist > 0]_vars
\* located points are exact at the points and between their neighbours
Located == (Measured(sh) /\ Monotone(sh)) =>
   /\ \A i \in DOMAIN sh : (\A j \in DOMAIN sh : j # i => sh[j].dist # sh[i].dist) =>
        LET f == At(sh, sh[i].dist) IN f[1] = sh[i].lat * f[3] /\ f[2] = sh[i].lon * f[3]
   /\ \A d \in 0..(MaxDist(sh) + 1) : \E i, j \in DOMAIN sh :
        LET f == At(sh, d) IN i <= j /\ j <= i + 1 /\ f[3] > 0 /\ sh[i].lat * f[3] <= f[1] + 200000 * f[3] /\ AtDist(sh, d) <= MaxDist(sh)
Op(p) == [op |-> "add", p |-> p]
GenNext == /\ Len(hist) < Depth
           /\ \/ \E p \in RandomSubset(6, Pts) : Add(p) /\ hist' = Append(hist, Op(p))
              \/ \E p \in RandomSubset(2, Pts) : LET q == [p EXCEPT !.seq = NextSeq(sh)] IN
                   /\ Len(sh) < MaxLen /\ sh' = Append(sh, q) /\ hist' = Append(hist, [op |-> "append", p |-> q]) /\ UNCHANGED <<added, rep>>
              \/ RandomElement(1..8) = 1 /\ sh' = <<>> /\ hist' = Append(hist, [op |-> "clear", p |-> [seq |-> 0]]) /\ UNCHANGED <<added, rep>>
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
