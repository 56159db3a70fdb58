--------------------------- MODULE FeedFaultTrace ---------------------------
(* C03: what is reported for a row, where, and for which column and value. *)
EXTENDS FeedObs, TraceIO
VARIABLES c, l, s
CStart(case) == [Empty(case.lex, {case.ev[i].x : i \in 1..Len(case.ev) - 1}) EXCEPT !.kept = <<>>] @@
                [rows |-> {}, due |-> RestDue(case)]
CPost(w, e) == IF e.op = "row" THEN Load([w EXCEPT !.rows = @ \cup {<<e.x, May(w, e.x)>>}], e.x) ELSE w
CClauses(w, y, e) ==
  LET ps == e.o IN
  IF e.op = "row" THEN
    << <<"the faults of the row are reported", \A f \in Must(w, e.x) : \E i \in DOMAIN ps.probs : Fits(w, ps.probs[i], f)>>,
       <<"a row that cannot be used is reported", OneOf(w, e.x) = {} \/ \E f \in OneOf(w, e.x) : \E i \in DOMAIN ps.probs : Fits(w, ps.probs[i], f)>>,
       <<"only faults of the row are reported", \A i \in DOMAIN ps.probs : \E f \in May(w, e.x) : Fits(w, ps.probs[i], f)>>,
       <<"problems show the cells of the row", \A i \in DOMAIN ps.probs : IF ps.probs[i].has THEN Shows(ps.probs[i], e.x)
             ELSE ps.probs[i].cls = "OtherProblem" /\ e.x.cnt # "ok">> >>
  ELSE
    << <<"file problems", {<<ps.rest[i].cls, ps.rest[i].l, ps.rest[i].file, ps.rest[i].c>> : i \in DOMAIN ps.rest} = w.due
                          /\ Len(ps.rest) = Cardinality(w.due)>>,
       <<"file problems are not located at a row", \A i \in DOMAIN ps.rest : ps.rest[i].row \in {-1, 1}>>,
       <<"later problems are not located at a row without that fault",
           \A i \in DOMAIN ps.after : \E q \in w.rows : /\ q[1].f = ps.after[i].file /\ q[1].n = ps.after[i].row
                                                        /\ Shows(ps.after[i], q[1]) /\ \E f \in q[2] : Fits(w, ps.after[i], f)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
