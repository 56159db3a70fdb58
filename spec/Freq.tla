-------------------------------- MODULE Freq --------------------------------
(* Headway periods of a trip.  s = sequence of <<start, end, headway, exact>>. *)
(* Arguments are tagged values [k, v]: k = "none" | "int" | "text" (a well     *)
(* formed text of the value v) | "bad" (a text that is not a value).           *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

\* What adding a period reports (in column order) and whether it is kept
Adding(a) ==
  LET m(c) == <<"MissingValue " \o c>>
      i(c) == <<"InvalidValue " \o c>>
      startBad == IF a.start.k = "none" THEN m("start_time") ELSE IF a.start.k = "bad" THEN i("start_time") ELSE <<>>
      startNeg == IF a.start.k = "int" /\ a.start.v < 0 THEN i("start_time") ELSE <<>>
      endBad == IF a.end.k = "none" THEN m("end_time")
                ELSE IF a.end.k = "bad" \/ (a.end.k = "int" /\ a.end.v < 0) THEN i("end_time") ELSE <<>>
      headBad == IF a.head.k = "none" \/ (a.head.k = "int" /\ a.head.v = 0) THEN m("headway_secs")
                 ELSE IF a.head.k = "bad" \/ a.head.v <= 0 THEN i("headway_secs") ELSE <<>>
      order == IF a.end.v <= a.start.v THEN i("end_time") ELSE <<>>
      exact == IF a.exact.k = "none" \/ a.exact.v \in {0, 1} THEN <<>> ELSE i("exact_times")
  IN IF startBad # <<>> THEN [rep |-> startBad, keep |-> FALSE]
     ELSE IF endBad # <<>> THEN [rep |-> startNeg \o endBad, keep |-> FALSE]
     ELSE IF headBad # <<>> THEN [rep |-> startNeg \o headBad, keep |-> FALSE]
     ELSE [rep |-> startNeg \o order \o exact, keep |-> TRUE]
Period(a) == <<a.start.v, a.end.v, a.head.v, IF a.exact.k = "none" THEN 0 ELSE a.exact.v>>

\* A row of frequencies.txt: exact_times is checked as text first; a text that is
\* no number is reported and counts as absent, a number out of range is reported
\* by both checks.
RowAdding(a) ==
  IF a.exact.k = "bad" THEN [Adding([a EXCEPT !.exact = [k |-> "none", v |-> 0]]) EXCEPT !.rep = <<"InvalidValue exact_times">> \o @]
  ELSE IF a.exact.k # "none" /\ a.exact.v \notin {0, 1} THEN [Adding(a) EXCEPT !.rep = <<"InvalidValue exact_times">> \o @]
  ELSE Adding(a)
RowPeriod(a) == IF a.exact.k = "bad" THEN Period([a EXCEPT !.exact = [k |-> "none", v |-> 0]]) ELSE Period(a)

RECURSIVE LoadRows(_, _)
LoadRows(rows, s) == IF rows = <<>> THEN s
  ELSE LoadRows(Tail(rows), IF RowAdding(Head(rows)).keep THEN Append(s, RowPeriod(Head(rows))) ELSE s)
RECURSIVE RowReports(_)
RowReports(rows) == IF rows = <<>> THEN <<>> ELSE RowAdding(Head(rows)).rep \o RowReports(Tail(rows))

Do(s, e) ==
  CASE e.op = "add"   -> IF Adding(e.a).keep THEN Append(s, Period(e.a)) ELSE s
    [] e.op = "clear" -> <<>>
    [] e.op = "load"  -> LoadRows(e.rows, <<>>)
    [] OTHER          -> s
Reports(e) == CASE e.op = "add" -> Adding(e.a).rep [] e.op = "load" -> RowReports(e.rows) [] OTHER -> <<>>

\* ------------------------------------------------------------------ the runs
Count(p) == IF p[2] <= p[1] THEN 0 ELSE (p[2] - p[1] + p[3] - 1) \div p[3]
StartsOf(p) == [k \in 1..Count(p) |-> p[1] + (k - 1) * p[3]]
Leq(a, b) == a < b
Starts(s) == SortSeq(FlattenSeq([i \in DOMAIN s |-> StartsOf(s[i])]), Leq)
Shift(rows, by) == [i \in DOMAIN rows |-> [rows[i] EXCEPT !.arr = IF @ = -1 THEN -1 ELSE @ + by, !.dep = IF @ = -1 THEN -1 ELSE @ + by]]
Runs(s, rows) == [k \in DOMAIN Starts(s) |-> Shift(rows, Starts(s)[k] - rows[1].arr)]
Overlap(p, q) == q[1] < p[2] /\ q[2] > p[1]
Overlaps(s) == Cardinality({ij \in (DOMAIN s) \X (DOMAIN s) : ij[1] < ij[2] /\ Overlap(s[ij[1]], s[ij[2]])})
=============================================================================
