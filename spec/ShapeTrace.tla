----------------------------- MODULE ShapeTrace -----------------------------
(* s maps shape ids to shapes.                                               *)
EXTENDS Shape, TraceIO, SequencesExt
VARIABLES c, l, s
Of(w, id) == IF id \in DOMAIN w THEN w[id] ELSE <<>>
Put(w, id, sh) == [x \in DOMAIN w \cup {id} |-> IF x = id THEN sh ELSE w[x]]
CStart(case) == IF case.mode = "api" THEN ("" :> <<>>) ELSE <<>>
Matches(sh, i, e) == Reports(sh, i, e.p) = e.o.rep
                     /\ ("points" \in DOMAIN e.o => Insert(sh, i, e.p) = e.o.points)
\* a point that may take several places takes the one the log shows
Place(sh, e) == LET S == {i \in Places(sh, e.p) : Matches(sh, i, e)} IN IF S = {} THEN CHOOSE i \in Places(sh, e.p) : TRUE ELSE CHOOSE i \in S : TRUE
Pt(e, sh) == IF e.op = "append" THEN [e.p EXCEPT !.seq = NextSeq(sh)] ELSE e.p
CPost(w, e) ==
  CASE e.op \in {"add", "append"} ->
         IF e.bad # "" THEN w
         ELSE LET sh == Of(w, e.id)  f == [e EXCEPT !.p = Pt(e, sh)] IN Put(w, e.id, Insert(sh, Place(sh, f), f.p))
    [] e.op = "clear" -> Put(w, e.id, <<>>)
    [] OTHER -> w
Clauses0(w, y, e) ==
  CASE e.op \in {"add", "append"} ->
       IF e.bad # "" THEN <<
         <<"a bad point is reported at its column", e.o.cols = <<e.bad>> >>,
         <<"a bad point is left out", "points" \in DOMAIN e.o => e.o.points = Of(w, e.id)>> >>
       ELSE LET sh == Of(w, e.id)  p == Pt(e, sh) IN <<
         <<"problems of the point", \E i \in Places(sh, p) : Reports(sh, i, p) = e.o.rep>>,
         <<"points", "points" \in DOMAIN e.o => \E i \in Places(sh, p) : Insert(sh, i, p) = e.o.points>>,
         <<"problems and place agree", \E i \in Places(sh, p) : Matches(sh, i, [e EXCEPT !.p = p])>>,
         <<"odd numbers", e.o.odd = e.odd>>,
         <<"no other problems", e.o.cols = <<>> >>,
         <<"largest distance", "max" \in DOMAIN e.o => e.o.max = MaxDist(y[e.id])>> >>
    [] e.op = "clear" -> << <<"cleared", e.o.points = <<>> /\ e.o.max = 0>> >>
    [] e.op = "shapes" -> <<
         <<"shapes loaded", {x.id : x \in ToSet(e.o.shapes)} = DOMAIN w /\ Len(e.o.shapes) = Cardinality(DOMAIN w)>>,
         <<"points of each shape", \A x \in ToSet(e.o.shapes) : x.id \in DOMAIN w =>
             /\ Len(x.points) = Len(w[x.id]) /\ Ordered(x.points)
             /\ \A p \in ToSet(w[x.id]) : Cardinality({i \in DOMAIN x.points : x.points[i] = p}) = Cardinality({i \in DOMAIN w[x.id] : w[x.id][i] = p})>>,
         <<"largest distances", \A x \in ToSet(e.o.shapes) : x.id \in DOMAIN w => x.max = MaxDist(w[x.id])>>,
         <<"unused shapes", ToSet(e.o.unused) = DOMAIN w \ ToSet(e.used)>> >>
    [] e.op = "at" -> LET sh == Of(w, e.id) IN
       IF ~Measured(sh) THEN << <<"no point at a distance", ~e.o.found>> >>
       ELSE IF ~Monotone(sh) THEN <<>>
       ELSE LET f == At(sh, e.d) IN <<
         <<"a point is found", e.o.found>>,
         <<"the point", e.o.found => Near(e.o.lat, f[1], f[3]) /\ Near(e.o.lon, f[2], f[3])>>,
         <<"its distance", e.o.found => e.o.dist = AtDist(sh, e.d)>> >>
CClauses(w, y, e) == Clauses0(w, y, e)
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
