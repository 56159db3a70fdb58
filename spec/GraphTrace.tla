----------------------------- MODULE GraphTrace -----------------------------
EXTENDS Graph, TraceIO
VARIABLES c, l, s
CStart(case) == {}
Poly(e) == [name |-> e.name, pts |-> e.pts]
CPost(col, e) == IF e.op = "add" THEN AddTo(col, Poly(e), e.k) ELSE col
Edges(col) == {[name |-> x.name, pts |-> x.pts] : x \in col}
CClauses(col, y, e) ==
  CASE e.op = "add" -> << <<"number of polylines", e.o.num = Cardinality(y)>>, <<"length", e.o.len = Len1(e.pts)>>,
                          <<"reversed", e.o.rev = Reverse(e.pts)>> >>
    [] e.op = "path" -> LET d == Dist(Edges(col), e.s)[e.g] IN <<
         <<"none exactly if not connected", e.o.none = (d = None)>>,
         <<"a chain of edges from start to goal", ~e.o.none => IsPath(Edges(col), e.s, e.g, e.o.names, e.o.pts)>>,
         <<"shortest", (~e.o.none /\ d # None) => e.o.len = d>> >>
    [] e.op = "multi" -> LET E == Edges(col)
                             near == \A i \in DOMAIN e.pts : Near(E, e.pts[i], e.r) # {}
                             b == IF near THEN Beams(E, e.pts, e.r, e.n) ELSE [q |-> <<>>, tie |-> FALSE] IN <<
         <<"none exactly if no path is kept", b.tie \/ e.o.none = (b.q = <<>>)>>,
         <<"a chain of edges", ~e.o.none => (e.o.names # <<>> /\ e.o.pts # <<>> /\ IsPath(E, e.o.pts[1], Last1(e.o.pts), e.o.names, e.o.pts))>>,
         <<"near the points in order", ~e.o.none => Serves(Visited(E, e.o.pts[1], e.o.names), e.pts, e.r)>>,
         <<"the shortest of those kept", (b.tie \/ e.o.none \/ b.q = <<>>) \/ e.o.len = b.q[1].len>> >>
    [] e.op = "match" -> << <<"matching polylines", ToSet(e.o.found) = Matching(col, e.s, e.g, e.r) /\ Len(e.o.found) = Cardinality(ToSet(e.o.found))>> >>
    [] e.op = "closest" -> <<
         <<"closest point", IsClosest(e.x, e.pts, e.o.pos, e.o.i)>>,
         <<"cut in two", /\ e.o.a = SubSeq(e.pts, 1, Len(e.o.a)) /\ IsClosest(e.x, e.pts, e.o.b[1], Len(e.o.a))
                         /\ Tail(e.o.b) = SubSeq(e.pts, Len(e.o.a) + 1, Len(e.pts))>> >>
    [] e.op = "greedy" -> << <<"greedy match", e.o.max = Greedy(e.pts, e.shape)>> >>
    [] e.op = "merge" -> << <<"merged", e.o.pts = Merge(e.polys, e.t)>>, <<"name of the merged", e.o.name = e.wantname>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
