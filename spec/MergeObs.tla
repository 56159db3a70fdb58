------------------------------ MODULE MergeObs ------------------------------
(* The recorded schedules, maps and parameters of a merge.                    *)
EXTENDS Merge, TraceIO
Fn(q) == [i \in {x[1] : x \in ToSet(q)} |-> (CHOOSE x \in ToSet(q) : x[1] = i)[2]]
CalOf(c) == [start |-> c.start, end |-> c.end, dow |-> c.dow, exc |-> Fn(c.exc)]
Tab(q) == [f \in Files |-> {Cells(f, x.r) : x \in ToSet(Of(q, f))}]
Sched(x) == [tab |-> Tab(x.ents), ids |-> [k \in KindSet |-> ToSet(x.ids[k])], at |-> Fn(x.stops), ends |-> Fn(x.shapes),
             cal |-> LET F == Fn(x.cal) IN [i \in DOMAIN F |-> CalOf(F[i])]]
Maps(o) == [a |-> [k \in KindSet |-> Fn(o.ma[k])], b |-> [k \in KindSet |-> Fn(o.mb[k])], za |-> Fn(o.za), zb |-> Fn(o.zb)]
Par(e) == [mergers |-> e.mergers, cut |-> e.cut, stopd |-> IF e.stopd < 0 THEN 10000 ELSE e.stopd, shaped |-> IF e.shaped < 0 THEN 10000 ELSE e.shaped]
\* each recorded row once
NoTwins(x, f) == Len(Of(x.ents, f)) = Cardinality({y.r : y \in ToSet(Of(x.ents, f))})
RanAll(e, ok) == IF ok THEN ToSet(e.mergers) ELSE {e.mergers[i] : i \in 1..((CHOOSE i \in DOMAIN e.mergers : e.mergers[i] = "service") - 1)}
=============================================================================
