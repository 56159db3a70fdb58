------------------------------ MODULE Calendar ------------------------------
(* A service period (calendar.txt / calendar_dates.txt).                     *)
(* Days are numbered; day 0 is 2000-01-01, a Saturday.  None (-1) is "no      *)
(* date".  s = [start, end, dow, exc]: dow[1..7] Monday..Sunday, exc a         *)
(* function from the days with an exception to TRUE (added) / FALSE (removed). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

None == -1
Dow(d) == ((d + 5) % 7) + 1

Empty == [start |-> None, end |-> None, dow |-> [i \in 1..7 |-> FALSE], exc |-> <<>>]

\* ------------------------------------------------------------- the semantics
Added(s) == {d \in DOMAIN s.exc : s.exc[d]}
Removed(s) == {d \in DOMAIN s.exc : ~s.exc[d]}
Regular(s, d) == s.start # None /\ s.end # None /\ s.start <= d /\ d <= s.end /\ s.dow[Dow(d)]
Active(s, d) == d \in Added(s) \/ (Regular(s, d) /\ d \notin Removed(s))

\* First and last day the period speaks about
Ends(s) == ({s.start, s.end} \ {None}) \cup Added(s)
DateRange(s) ==
  LET lo == {x \in {s.start} \cup Added(s) : x # None}
      hi == {x \in {s.end} \cup Added(s) : x # None}
      a == IF lo = {} THEN None ELSE Min(lo)
      b == IF hi = {} THEN None ELSE Max(hi)
  IN IF a = None THEN <<b, b>> ELSE IF b = None THEN <<a, a>> ELSE <<a, b>>

ActiveDays(s) ==
  Added(s) \cup (IF s.start = None \/ s.end = None THEN {}
                 ELSE {d \in s.start..s.end : Regular(s, d) /\ d \notin Removed(s)})

\* ------------------------------------------------------------------- the edits
With(s, d, b) == [s EXCEPT !.exc = [x \in DOMAIN s.exc \cup {d} |-> IF x = d THEN b ELSE s.exc[x]]]
Do(s, e) ==
  CASE e.op = "start"   -> [s EXCEPT !.start = e.d]
    [] e.op = "end"     -> [s EXCEPT !.end = e.d]
    [] e.op = "dow"     -> [s EXCEPT !.dow[e.i + 1] = e.b]
    [] e.op = "weekday" -> [s EXCEPT !.dow = [i \in 1..7 |-> IF i <= 5 THEN e.b ELSE s.dow[i]]]
    [] e.op = "weekend" -> [s EXCEPT !.dow = [i \in 1..7 |-> IF i > 5 THEN e.b ELSE s.dow[i]]]
    [] e.op = "exc"     -> With(s, e.d, e.b)
    [] e.op = "reset"   -> [s EXCEPT !.exc = [x \in DOMAIN s.exc \ {e.d} |-> s.exc[x]]]
    [] OTHER            -> s

\* ---------------------------------------------------------- rows of the tables
CalendarRow(s) == IF s.start # None /\ s.end # None
                  THEN <<[start |-> s.start, end |-> s.end, dow |-> s.dow]>> ELSE <<>>
DateRows(s) == {<<d, IF s.exc[d] THEN 1 ELSE 2>> : d \in DOMAIN s.exc}
FromRows(row, dates) ==
  [start |-> IF row = <<>> THEN None ELSE row[1].start,
   end   |-> IF row = <<>> THEN None ELSE row[1].end,
   dow   |-> IF row = <<>> THEN [i \in 1..7 |-> FALSE] ELSE row[1].dow,
   exc   |-> [d \in {x[1] : x \in dates} |-> <<d, 1>> \in dates]]

\* ------------------------------------------------------------------ validation
EndBeforeStart(s) == s.start # None /\ s.end # None /\ s.end < s.start
NoService(s) == (\A i \in 1..7 : ~s.dow[i]) /\ Added(s) = {}
\* Adding an exception for a date that already has one draws a warning.
DuplicateException(s, e) == e.op = "exc" /\ e.d \in DOMAIN s.exc
=============================================================================
