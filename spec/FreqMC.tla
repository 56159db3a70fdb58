------------------------------- MODULE FreqMC -------------------------------
EXTENDS Freq, Json, Randomization
CONSTANTS Times, Heads, MaxLen, Depth
VARIABLES s, hist
vars == <<s, hist>>
IntV(v) == [k |-> "int", v |-> v]
Vals(S) == {IntV(v) : v \in S} \cup {[k |-> "text", v |-> v] : v \in S} \cup {[k |-> "none", v |-> 0], [k |-> "bad", v |-> 0]}
Adds == {[op |-> "add", a |-> [start |-> x, end |-> y, head |-> h, exact |-> z]] :
          x \in Vals(Times), y \in Vals(Times), h \in Vals(Heads), z \in {[k |-> "none", v |-> 0], IntV(0), IntV(1), IntV(2)}}
Good == {e \in Adds : e.a.start.k = "int" /\ e.a.end.k = "int" /\ e.a.head.k = "int" /\ e.a.exact = IntV(0)}
Init == s = <<>> /\ hist = <<>>
Next == Len(s) < MaxLen /\ \E e \in Good : s' = Do(s, e) /\ hist' = <<e>>
Spec == Init /\ [][Next]_vars
View == s
OK == \A i \in DOMAIN s : s[i][1] < s[i][2]
StartsExact == OK => ToSet(Starts(s)) = {t \in 0..Max(Times) : \E i \in DOMAIN s : t >= s[i][1] /\ t < s[i][2] /\ (t - s[i][1]) % s[i][3] = 0}
Sorted == \A i \in 1..(Len(Starts(s)) - 1) : Starts(s)[i] <= Starts(s)[i + 1]
\* without overlap no start comes twice
NoRepeat == (OK /\ Overlaps(s) = 0) => Len(Starts(s)) = Cardinality(ToSet(Starts(s)))
Symmetric == \A i, j \in DOMAIN s : Overlap(s[i], s[j]) <=> Overlap(s[j], s[i])
\* overlap of valid periods is exactly a common instant
OverlapExact == OK => \A i, j \in DOMAIN s : Overlap(s[i], s[j]) <=> (\E t \in 0..Max(Times) : t >= s[i][1] /\ t < s[i][2] /\ t >= s[j][1] /\ t < s[j][2])
Kept == [][\A e \in Good : (hist' = <<e>>) => (Len(s') = Len(s) + 1) = (e.a.head.v > 0)]_vars
GenNext == Len(hist) < Depth /\
   \/ \E e \in RandomSubset(20, Adds) : s' = Do(s, e) /\ hist' = Append(hist, e)
   \/ Len(s) > 1 /\ s' = <<>> /\ hist' = Append(hist, [op |-> "clear"])
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
