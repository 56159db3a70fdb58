------------------------------- MODULE CutMC -------------------------------
(* Cutting two calendars at a date, edit by edit (the edits of Calendar):    *)
(* the old one is left with its service before the date, the new one with    *)
(* its service from the date on, and then their ranges never meet.           *)
EXTENDS Merge
CONSTANTS End
VARIABLES a0, b0, a, b, cut, at
vars == <<a0, b0, a, b, cut, at>>
Span == 0..End
Ranges == {<<-1, -1>>} \cup {r \in Span \X Span : r[1] <= r[2]}
Excs == [Span -> {"none", "add", "take"}]
Cals == {[start |-> r[1], end |-> r[2], dow |-> w,
          exc |-> [d \in {d \in Span : x[d] # "none"} |-> x[d] = "add"]] :
         r \in Ranges, x \in Excs, w \in {[i \in 1..7 |-> TRUE], [i \in 1..7 |-> i = 6]}}
Before0(c) == Cal!Do(c, [op |-> "end", d |-> IF c.end # -1 /\ c.end >= cut THEN cut - 1 ELSE c.end])
From0(c) == Cal!Do(c, [op |-> "start", d |-> IF c.start # -1 /\ c.start < cut THEN cut ELSE c.start])
\* a range with nothing left goes away altogether
Sound0(c) == IF c.start # -1 /\ c.end # -1 /\ c.start > c.end THEN [c EXCEPT !.start = -1, !.end = -1] ELSE c
Init == /\ a0 \in Cals /\ a = a0 /\ cut \in 1..End /\ at = "range"
        /\ b0 \in {[a0 EXCEPT !.exc = <<>>], a0} /\ b = b0
Range0 == at = "range" /\ at' = "dates" /\ a' = Sound0(Before0(a)) /\ b' = Sound0(From0(b)) /\ UNCHANGED <<a0, b0, cut>>
Drop == /\ at = "dates" /\ UNCHANGED <<a0, b0, cut>>
        /\ \/ \E d \in DOMAIN a.exc : d >= cut /\ a' = Cal!Do(a, [op |-> "reset", d |-> d]) /\ UNCHANGED <<b, at>>
           \/ \E d \in DOMAIN b.exc : d < cut /\ b' = Cal!Do(b, [op |-> "reset", d |-> d]) /\ UNCHANGED <<a, at>>
           \/ (\A d \in DOMAIN a.exc : d < cut) /\ (\A d \in DOMAIN b.exc : d >= cut) /\ at' = "done" /\ UNCHANGED <<a, b>>
Next == Range0 \/ Drop
Spec == Init /\ [][Next]_vars
OldService == at = "done" => Days1(a) = Before(a0, cut)
NewService == at = "done" => Days1(b) = From(b0, cut)
Apart0 == at = "done" => ~RangesMeet(a, b)
Sound == at # "range" => ~Cal!EndBeforeStart(a) /\ ~Cal!EndBeforeStart(b)
Untouched == at = "done" => (WhollyBefore(a0, cut) => a = a0) /\ (WhollyFrom(b0, cut) => b = b0)
\* what was kept plus what was cut is the whole service of a calendar
Whole == at = "done" /\ a0 = b0 => Days1(a) \cup Days1(b) = Days1(a0)
=============================================================================
