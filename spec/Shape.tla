------------------------------- MODULE Shape -------------------------------
(* A shape: points [seq, lat, lon, dist], ordered by seq.  dist is in        *)
(* quarters, -1 where not known; lat and lon are in thousandths of a degree. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Ordered(sh) == \A i \in 1..(Len(sh) - 1) : sh[i].seq <= sh[i + 1].seq
Insert(sh, i, p) == SubSeq(sh, 1, i) \o <<p>> \o SubSeq(sh, i + 1, Len(sh))
\* the places a point may take: number of points before it
Places(sh, p) == {i \in 0..Len(sh) : (\A j \in 1..i : sh[j].seq <= p.seq) /\ (\A j \in (i + 1)..Len(sh) : sh[j].seq >= p.seq)}
Reused(sh, p) == \E i \in DOMAIN sh : sh[i].seq = p.seq
\* the known distances before and after the place behind the first i points
Known(sh, A) == {j \in A : sh[j].dist # -1}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Before(sh, i) == LET K == Known(sh, 1..i) IN IF K = {} THEN -1 ELSE sh[Max0(K)].dist
After(sh, i) == LET K == Known(sh, (i + 1)..Len(sh)) IN IF K = {} THEN -1 ELSE sh[Least(K)].dist
Less(a, b) == a # -1 /\ b # -1 /\ a < b
\* reported when p is put behind the first i points
Reports(sh, i, p) == [seq |-> IF Reused(sh, p) THEN 1 ELSE 0,
                      dist |-> (IF Less(p.dist, Before(sh, i)) THEN 1 ELSE 0) + (IF Less(After(sh, i), p.dist) THEN 1 ELSE 0)]
\* the next free sequence number
NextSeq(sh) == IF sh = <<>> THEN 0 ELSE sh[Len(sh)].seq + 1
MaxDist(sh) == Max0({sh[i].dist : i \in DOMAIN sh} \cup {0})

\* ---- the point at distance d (in quarters)
Measured(sh) == sh # <<>> /\ \A i \in DOMAIN sh : sh[i].dist # -1
Monotone(sh) == \A i \in 1..(Len(sh) - 1) : sh[i].dist <= sh[i + 1].dist
\* fractions <<num of lat, num of lon, denominator>>
At(sh, d) ==
  IF d <= sh[1].dist THEN <<sh[1].lat, sh[1].lon, 1>>
  ELSE IF d >= sh[Len(sh)].dist THEN <<sh[Len(sh)].lat, sh[Len(sh)].lon, 1>>
  ELSE LET i == CHOOSE i \in 1..(Len(sh) - 1) : sh[i].dist <= d /\ d < sh[i + 1].dist
           a == sh[i]  b == sh[i + 1]  ca == d - a.dist  bc == b.dist - d
       IN <<b.lat * ca + a.lat * bc, b.lon * ca + a.lon * bc, ca + bc>>
AtDist(sh, d) == IF d <= sh[1].dist THEN sh[1].dist ELSE IF d >= sh[Len(sh)].dist THEN sh[Len(sh)].dist ELSE d
Near(obs, num, den) == LET x == 2 * (obs * den - num) IN x <= den /\ -x <= den
=============================================================================
