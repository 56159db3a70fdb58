------------------------------- MODULE Import -------------------------------
(* The shape importer: gives the trips of a feed the shapes of a network.     *)
(* f = [lines, named, trips, shapes, max]: lines [name, pts] in the order     *)
(* they were added; trips [id, route, stops (their places), pat (the stops),  *)
(* shape (0: none)]; shapes the feed's own, each [id, pts].  All places are   *)
(* metres along a great circle (see Graph).                                   *)
EXTENDS Graph
Abs2(x) == IF x < 0 THEN -x ELSE x
Coll(f) == FoldLeft(LAMBDA col, i : AddTo(col, f.lines[i], i), {}, [i \in DOMAIN f.lines |-> i])
Edges(f) == {[name |-> ToString(i), pts |-> f.lines[i].pts] : i \in DOMAIN f.lines}
Whole(f, p) == Matching(Coll(f), First(p), Last1(p), f.max)     \* lines from the first stop to the last
Score(f, p, k) == Greedy(p, f.lines[k].pts)
\* ---- the lines that a pattern may get (any of the best), or a path of several
BestLines(f, p) == LET S == Whole(f, p)  b == Min({Score(f, p, k) : k \in S}) IN {k \in S : Score(f, p, k) <= b + 1}
LineFits(f, p) == Min({Score(f, p, k) : k \in Whole(f, p)})
CanPath(f, p) == Len(p) > 1 /\ \A i \in DOMAIN p : Near(Edges(f), p[i], f.max) # {}
PathBeams(f, p) == Beams(Edges(f), p, f.max, 10)
Steps1(f) == UNION {{<<q.pts[i], q.pts[i + 1]>> : i \in 1..(Len(q.pts) - 1)} : q \in Edges(f)}
Steady(q) == (\A i \in 1..(Len(q) - 1) : q[i] <= q[i + 1]) \/ (\A i \in 1..(Len(q) - 1) : q[i] >= q[i + 1])
PathOk(f, p, pts) ==
  /\ Len(pts) > 1 /\ Abs2(First(pts) - First(p)) < f.max /\ Abs2(Last1(pts) - Last1(p)) < f.max
  /\ \A i \in 1..(Len(pts) - 1) : <<pts[i], pts[i + 1]>> \in Steps1(f) \/ <<pts[i + 1], pts[i]>> \in Steps1(f)
  /\ LET b == PathBeams(f, p) IN b.tie \/ (b.q # <<>> /\ Len1(pts) = b.q[1].len)
Reach(f, p) == CanPath(f, p) /\ LET b == PathBeams(f, p) IN b.tie \/ b.q # <<>>
\* what a pattern gets: kind "line" (one of lines), "path" (a right path), "none"
Gets(f, p) ==
  IF p = <<>> THEN "none"
  ELSE IF Whole(f, p) # {} THEN (IF LineFits(f, p) <= f.max THEN "line" ELSE "none")
  ELSE IF Reach(f, p) THEN "path" ELSE "none"
Right(f, p, pts) ==
  CASE Gets(f, p) = "line" -> \E k \in BestLines(f, p) : pts = f.lines[k].pts
    [] Gets(f, p) = "path" -> PathOk(f, p, pts)
    [] OTHER -> FALSE
\* a path may also fit too badly, which is left open unless it runs one way
MayBeNone(f, p) == Gets(f, p) = "none" \/ (Gets(f, p) = "path" /\ ~Steady(p))
Pat(t) == <<t.route, t.pat>>
=============================================================================
