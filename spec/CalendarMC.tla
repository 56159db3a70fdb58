----------------------------- MODULE CalendarMC -----------------------------
(* All edit sequences over a few days, exhaustively; Gen prints behaviours.   *)
EXTENDS Calendar, Json
CONSTANTS Days, Depth
VARIABLES s, hist
vars == <<s, hist>>
Ops == [op : {"start", "end"}, d : Days \cup {None}] \cup [op : {"exc"}, d : Days, b : BOOLEAN]
       \cup [op : {"reset"}, d : Days] \cup [op : {"dow"}, i : 0..6, b : BOOLEAN]
       \cup [op : {"weekday", "weekend"}, b : BOOLEAN]
Init == s = Empty /\ hist = <<>>
\* exhaustive: the last operation only
Edit(e) == s' = Do(s, e)
Next == \E e \in Ops : (e.op = "dow" => e.i \in {0, 5}) /\ Edit(e) /\ hist' = <<e>>
Spec == Init /\ [][Next]_vars
View == s

Probe == (Min(Days) - 2)..(Max(Days) + 2)
\* The three queries agree.
ListAgrees == \A d \in Probe : (d \in ActiveDays(s)) <=> Active(s, d)
RangeCovers == \A d \in Probe : Active(s, d) => (DateRange(s)[1] <= d /\ d <= DateRange(s)[2])
RangeNone == (DateRange(s)[1] = None) <=> (DateRange(s)[2] = None)
\* Writing the rows and reading them gives the same set of dates.
RowsFaithful == LET t == FromRows(CalendarRow(s), DateRows(s)) IN \A d \in Probe : Active(t, d) <=> Active(s, d)
\* The most recent exception for a date decides; taking it back restores the calendar.
LastExceptionWins == [][\A e \in Ops : (hist' = <<e>> /\ e.op = "exc") => (Active(s', e.d) = e.b)]_vars
ResetRestores == [][\A e \in Ops : (hist' = <<e>> /\ e.op = "reset") => (Active(s', e.d) = Regular(s, e.d))]_vars
\* An edit of one date does not change another.
Local == [][\A e \in Ops : (hist' = <<e>> /\ e.op \in {"exc", "reset"}) =>
            \A d \in Probe \ {e.d} : Active(s', d) = Active(s, d)]_vars

\* behaviours for replay (simulation)
GenNext == Len(hist) < Depth /\ \E e \in Ops : s' = Do(s, e) /\ hist' = Append(hist, e)
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
