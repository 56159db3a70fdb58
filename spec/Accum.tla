------------------------------- MODULE Accum -------------------------------
(* Problem accumulators and the validator's verdict.  A problem is a record  *)
(* [lvl, cls, dist, tag]; the state is the log of the problems counted.       *)
EXTENDS Integers, Sequences, FiniteSets
Levels == {"E", "W", "N"}
NearFirst == {"StopsTooClose", "StationsTooClose", "DifferentStationTooClose"}
FarFirst == {"StopTooFarFromParentStation", "StopTooFarFromShapeWithDistTraveled", "TooFastTravel"}
\* smaller: more serious
Weight(x) == IF x.cls \in NearFirst THEN x.dist ELSE IF x.cls \in FarFirst THEN -x.dist ELSE 0
Start0(limit, ign) == [limit |-> limit, ign |-> ign, log |-> <<>>]
Report(st, x) == IF x.cls \in st.ign THEN st ELSE [st EXCEPT !.log = Append(@, x)]
Of(st, l, k) == {i \in DOMAIN st.log : st.log[i].lvl = l /\ st.log[i].cls = k}
Count(st, l) == Cardinality({i \in DOMAIN st.log : st.log[i].lvl = l})
Before(st, i, j) == LET a == Weight(st.log[i])  b == Weight(st.log[j]) IN a < b \/ (a = b /\ i < j)
\* the problems kept of one class: the most serious first, else the first reported
Kept(st, l, k) ==
  LET I == Of(st, l, k)  n == IF Cardinality(I) < st.limit THEN Cardinality(I) ELSE st.limit
  IN [r \in 1..n |-> st.log[CHOOSE i \in I : Cardinality({j \in I : Before(st, j, i)}) = r - 1].tag]
Dropped(st, l, k) == Cardinality(Of(st, l, k)) - Len(Kept(st, l, k))
Classes(st, l) == {st.log[i].cls : i \in {j \in DOMAIN st.log : st.log[j].lvl = l}}
HasIssues(st) == Count(st, "E") > 0 \/ Count(st, "W") > 0
Exit(st) == IF HasIssues(st) THEN 1 ELSE 0
Raises(x, raiseWarnings) == x.lvl = "E" \/ (raiseWarnings /\ x.lvl = "W")
\* version numbers as sequences of numbers
Newer(v, w) == \E i \in 1..Len(v) : (\A j \in 1..(i - 1) : j <= Len(w) /\ v[j] = w[j]) /\ (i > Len(w) \/ v[i] > w[i])
=============================================================================
