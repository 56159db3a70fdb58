------------------------------ MODULE TripStore ------------------------------
(* The stop times of the trips of a schedule and the edits on them.           *)
(* s = a function from trip ids to the sequence of the trip's stop times,     *)
(* each [seq, stop, arr, dep, x]; arr/dep are seconds or None; x stands for   *)
(* the remaining columns.  None = -1.                                         *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
None == -1
Time(r) == IF r.arr # None THEN r.arr ELSE r.dep
BySeq(a, b) == a.seq < b.seq
Load(rows) == SortSeq(rows, BySeq)

NextSeq(rows) == IF rows = <<>> THEN 1 ELSE Last(rows).seq + 1
Latest(rows) == Max({None} \cup {r.arr : r \in ToSet(rows)} \cup {r.dep : r \in ToSet(rows)})

\* One report: the first stop time has no time, or a time before an earlier one
AddReports(rows, r) ==
  IF rows = <<>> THEN Time(r) = None
  ELSE Time(r) # None /\ Time(r) < Latest(rows)

Do(s, e) ==
  CASE e.op = "load"    -> [t \in DOMAIN e.init |-> Load(e.init[t])]
    [] e.op = "add"     -> [s EXCEPT ![e.t] = Append(@, [e.r EXCEPT !.seq = NextSeq(s[e.t])])]
    [] e.op = "replace" -> [s EXCEPT ![e.t] = [i \in DOMAIN @ |->
                              IF @[i].seq = e.r.seq /\ @[i].stop = e.r.stop THEN e.r ELSE @[i]]]
    [] e.op = "clear"   -> [s EXCEPT ![e.t] = <<>>]
    [] OTHER            -> s
Reports(s, e) == IF e.op = "add" /\ AddReports(s[e.t], e.r) THEN 1 ELSE 0

\* -------------------------------------------------------------------- queries
Pattern(rows) == [i \in DOMAIN rows |-> rows[i].stop]
StartTime(rows) == Time(rows[1])
EndTime(rows) == LET r == Last(rows) IN IF r.dep # None THEN r.dep ELSE r.arr
Timed(rows) == Time(rows[1]) # None /\ Time(Last(rows)) # None
\* the visits of a stop: (trip, zero based index)
Visits(s, stop) == UNION {{<<t, i - 1>> : i \in {j \in DOMAIN s[t] : s[t][j].stop = stop}} : t \in DOMAIN s}
=============================================================================
