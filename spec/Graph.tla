------------------------------- MODULE Graph -------------------------------
(* Polylines along one great circle, positions in metres, and the search in a   *)
(* graph whose edges they are.  A polyline is [name, pts]; the nodes of a graph  *)
(* are the end points of its polylines.  Polylines may go back and forth.        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Len1(q) == FoldLeft(LAMBDA n, i : n + Abs(q[i + 1] - q[i]), 0, [i \in 1..(Len(q) - 1) |-> i])
First(q) == q[1]
Last1(q) == q[Len(q)]
None == -1

\* ------------------------------------------------------------ shortest paths
Nodes(E) == {First(e.pts) : e \in E} \cup {Last1(e.pts) : e \in E}
Links(E, a, b) == {e \in E : (First(e.pts) = a /\ Last1(e.pts) = b) \/ (First(e.pts) = b /\ Last1(e.pts) = a)}
Best(S) == IF S = {} THEN None ELSE Min(S)
\* distances from s by as many edges as there are nodes; None if not reached
Relax(E, d) == [v \in Nodes(E) |->
   Best({d[v] : x \in IF d[v] = None THEN {} ELSE {0}} \cup
        UNION {{d[u] + Len1(e.pts) : e \in Links(E, u, v)} : u \in {u \in Nodes(E) : d[u] # None}})]
Dist(E, s) == FoldLeft(LAMBDA d, i : Relax(E, d), [v \in Nodes(E) |-> IF v = s THEN 0 ELSE None], [i \in 1..Cardinality(Nodes(E)) |-> i])

\* the points of a chain of edges (names) walked from s; <<>> if it is no chain
Edge(E, n) == CHOOSE e \in E : e.name = n
Walk(E, s, names) ==
  FoldLeft(LAMBDA q, n : IF q = <<>> \/ ~\E e \in E : e.name = n THEN <<>>
                         ELSE LET p == Edge(E, n).pts IN
                              IF First(p) = Last1(q) THEN q \o Tail(p)
                              ELSE IF Last1(p) = Last1(q) THEN q \o Tail(Reverse(p)) ELSE <<>>,
           <<s>>, names)
\* the nodes it visits
Visited(E, s, names) ==
  FoldLeft(LAMBDA q, n : LET p == Edge(E, n).pts IN Append(q, IF First(p) = Last1(q) THEN Last1(p) ELSE First(p)), <<s>>, names)
IsPath(E, s, g, names, pts) ==
  IF names = <<>> THEN s = g /\ pts \in {<<>>, <<s>>}
  ELSE Walk(E, s, names) # <<>> /\ pts = Walk(E, s, names) /\ Last1(pts) = g

\* ------------------------------------------------- paths along several points
Near(E, p, r) == {v \in Nodes(E) : Abs(v - p) < r}
\* beams: sequences of [end, len], shortest first; the first leg leaves its start
Sorted(q) == SortSeq(q, LAMBDA a, b : a.len < b.len)
FirstBeam(E, S, G) == Sorted(FlattenSeq([i \in 1..Cardinality(S) |-> LET s == SetToSeq(S)[i]  d == Dist(E, s) IN
      [j \in 1..Cardinality({g \in G : g # s /\ d[g] # None}) |->
         LET g == SetToSeq({g \in G : g # s /\ d[g] # None})[j] IN [end |-> g, len |-> d[g]]]]))
NextBeam(E, q, G) == Sorted(FlattenSeq([i \in DOMAIN q |-> LET d == Dist(E, q[i].end) IN
      [j \in 1..Cardinality({g \in G : d[g] # None}) |->
         LET g == SetToSeq({g \in G : d[g] # None})[j] IN [end |-> g, len |-> q[i].len + d[g]]]]))
Cut(q, n) == IF Len(q) <= n THEN q ELSE SubSeq(q, 1, n)
Tie(q, n) == Len(q) > n /\ q[n].len = q[n + 1].len    \* which are kept is open
Beams(E, pts, r, n) ==
  LET st(x, i) == LET q == NextBeam(E, x.q, Near(E, pts[i], r)) IN [q |-> Cut(q, n), tie |-> x.tie \/ Tie(q, n)]
      q1 == FirstBeam(E, Near(E, pts[1], r), Near(E, pts[2], r))
  IN FoldLeft(st, [q |-> Cut(q1, n), tie |-> Tie(q1, n)], [i \in 1..(Len(pts) - 2) |-> i + 2])
\* the nodes visited come near the points one after the other, the last near the last
RECURSIVE Follows(_, _, _, _)
Follows(q, pts, r, i) ==   \* q: nodes from the place of the point i - 1 on
  IF i > Len(pts) THEN Len(q) = 1
  ELSE \E k \in DOMAIN q : Abs(q[k] - pts[i]) < r /\ Follows(SubSeq(q, k, Len(q)), pts, r, i + 1)
Serves(q, pts, r) == Abs(q[1] - pts[1]) < r /\ Follows(q, pts, r, 2)

\* ------------------------------------------------------------- polylines
Between(x, a, b) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
ClosestOf(x, a, b) == IF Between(x, a, b) THEN x ELSE IF Abs(x - a) <= Abs(x - b) THEN a ELSE b
Gap(x, q) == Min({Abs(x - q[1])} \cup {Abs(x - ClosestOf(x, q[i], q[i + 1])) : i \in 1..(Len(q) - 1)})
\* pos is a point of the polyline nearest to x, on the segment after point i
IsClosest(x, q, pos, i) == /\ Abs(x - pos) = Gap(x, q)
                           /\ IF Len(q) = 1 THEN i = 1 /\ pos = q[1] ELSE i \in 1..(Len(q) - 1) /\ Between(pos, q[i], q[i + 1])
Clamp(x, lo, hi) == IF lo <= hi THEN (IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x)
                                ELSE (IF x > lo THEN lo ELSE IF x < hi THEN hi ELSE x)
\* for shapes that do not turn back: each point matched from where the last one was
Greedy(q, shape) == FoldLeft(LAMBDA s, x : LET y == Clamp(x, s.at, Last1(shape)) IN [at |-> y, max |-> IF Abs(x - y) > s.max THEN Abs(x - y) ELSE s.max],
                             [at |-> First(shape), max |-> 0], q).max
Join(q, r, t) == IF q = <<>> \/ r = <<>> THEN q \o r ELSE IF Abs(Last1(q) - First(r)) <= t THEN q \o Tail(r) ELSE q \o r
Merge(qs, t) == FoldLeft(LAMBDA q, r : Join(q, r, t), <<>>, qs)

\* -------------------------------------------------- collections with names
\* col: set of [name, k, pts]; polylines of the same name that do not match are
\* kept under a name of their own, written "".
AddTo(col, p, k) ==
  LET old == {x \in col : x.name = p.name} IN
  IF old = {} THEN col \cup {[name |-> p.name, k |-> k, pts |-> p.pts]}
  ELSE LET o == CHOOSE x \in old : TRUE IN
       IF Greedy(p.pts, o.pts) < 10 THEN (col \ {o}) \cup {[name |-> p.name, k |-> k, pts |-> p.pts]}
       ELSE col \cup {[name |-> "", k |-> k, pts |-> p.pts]}
Matching(col, a, b, r) == {x.k : x \in {x \in col : Abs(a - First(x.pts)) < r /\ Abs(b - Last1(x.pts)) < r}}
=============================================================================
