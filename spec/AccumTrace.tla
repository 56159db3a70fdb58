----------------------------- MODULE AccumTrace -----------------------------
(* Direct accumulator histories ("rep" events, then "state") and whole runs   *)
(* of the validator ("run").                                                  *)
EXTENDS Accum, TraceIO, SequencesExt
VARIABLES c, l, s
CStart(case) == Start0(case.limit, ToSet(case.ign))
RECURSIVE Fold(_, _, _)
Fold(w, q, i) == IF i > Len(q) THEN w ELSE Fold(Report(w, q[i]), q, i + 1)
CPost(w, e) == CASE e.op = "rep" -> Report(w, e.x)
                 [] e.op = "run" -> Fold(w, e.o.reports, 1)
                 [] OTHER -> w
\* kinds whose text names two trips or routes in no particular order
Paired == {"DuplicateTrip", "OverlappingTripsInSameBlock", "StopWithMultipleRouteTypes"}
Bag(q) == [x \in ToSet(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
Sections(w, lv) == {<<k, Cardinality(Of(w, lv, k)), Kept(w, lv, k), Dropped(w, lv, k)>> : k \in Classes(w, lv)}
Rows(w, lv) == {<<k, Cardinality(Of(w, lv, k))>> : k \in Classes(w, lv)}
Html(w, h) ==
  << <<"HTML: errors", h.errors = Count(w, "E")>>, <<"HTML: warnings", h.warnings = Count(w, "W")>>,
     <<"HTML: verdict", h.pass = ~HasIssues(w)>>,
     <<"HTML: number of each kind", \A lv \in {"E", "W"} : {<<r.cls, r.n>> : r \in ToSet(h.rows[lv])} = Rows(w, lv) /\ Len(h.rows[lv]) = Cardinality(Classes(w, lv))>>,
     <<"HTML: problems of each kind", \A lv \in Levels : {<<r.cls, r.kept, r.more>> : r \in ToSet(h.sections[lv])} = {<<k, Kept(w, lv, k), Dropped(w, lv, k)>> : k \in Classes(w, lv)}
                                       /\ Len(h.sections[lv]) = Cardinality(Classes(w, lv))>> >>
CClauses(w, y, e) ==
  CASE e.op = "rep" -> <<
         <<"an error is raised", Raises(e.x, FALSE) => e.o.raised.plain>>,
         <<"a warning or notice is not raised", ~Raises(e.x, FALSE) => ~e.o.raised.plain>>,
         <<"an error or warning is raised when asked", Raises(e.x, TRUE) => e.o.raised.warn>> >>
    [] e.op = "state" -> LET v == [w EXCEPT !.limit = 1000] IN <<
         <<"counts", \A k \in {"count", "limit"} : \A lv \in Levels : e.o[k].n[lv] = Count(w, lv)>>,
         <<"has issues", \A k \in {"count", "limit"} : e.o[k].issues = HasIssues(w)>>,
         <<"has notices", \A k \in {"count", "limit"} : e.o[k].notices = (Count(w, "N") > 0)>>,
         <<"summary text", \A k \in {"count", "limit"} : e.o[k].text = <<Count(w, "E"), Count(w, "W")>> >>,
         <<"printed", e.o.printed = Len(w.log)>>, <<"nothing else printed", e.o.rest = "">>,
         <<"kept", {<<r.lvl, r.cls, r.n, r.kept, r.dropped>> : r \in ToSet(e.o.kept)} =
                   {<<r.lvl, r.cls, Cardinality(Of(w, r.lvl, r.cls)), Kept(w, r.lvl, r.cls), Dropped(w, r.lvl, r.cls)>> : r \in ToSet(e.o.kept)}>>,
         <<"kinds", \A lv \in Levels : ToSet(e.o.kinds[lv]) = Classes(w, lv)>> >> \o Html(w, e.o.html)
    [] e.op = "run" -> (IF e.x.out = "unwritable" THEN <<>> ELSE <<
         <<"every problem of the feed is counted once", Bag([i \in DOMAIN e.o.found |-> e.o.found[i]]) =
             Bag(SelectSeq([i \in DOMAIN e.o.reports |-> <<e.o.reports[i].lvl, e.o.reports[i].cls, IF e.o.reports[i].cls \in Paired THEN "" ELSE e.o.reports[i].tag>>], LAMBDA t : t[2] # "NewVersionAvailable"))>>,
         <<"a newer version is noticed", Cardinality({i \in DOMAIN e.o.reports : e.o.reports[i].cls = "NewVersionAvailable"}) =
             (IF Newer(e.x.latest, e.x.own) THEN 1 ELSE 0)>> >>) \o <<
         <<"exit status", e.o.exit = (IF e.x.out = "unwritable" THEN 2 ELSE Exit(y))>> >>
         \o (IF e.x.out = "unwritable" THEN <<>> ELSE
             << <<"console verdict", e.o.text = (IF HasIssues(y) THEN <<Count(y, "E"), Count(y, "W")>> ELSE <<0, 0>>)>> >>)
         \o (IF e.x.out = "html" THEN Html(y, e.o.html) ELSE <<>>)
         \o (IF e.x.out = "console" THEN << <<"printed", e.o.printed = Len(y.log)>>, <<"nothing else printed", e.o.rest = "">> >> ELSE <<>>)
    [] e.op = "handler" -> << <<"exit status", e.o.exit = (IF e.x.raises THEN 127 ELSE e.x.code)>>,
                             <<"crash report exactly after a crash", e.o.crashfile = e.x.raises>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
