----------------------------- MODULE TripStoreMC -----------------------------
EXTENDS TripStore, Json
CONSTANTS Trips, Stops, Times, MaxLen, Depth
VARIABLES s, hist
vars == <<s, hist>>
Row(q, st, a, d) == [seq |-> q, stop |-> st, arr |-> a, dep |-> d, x |-> ""]
RowTimes == {<<a, d>> \in (Times \cup {None}) \X (Times \cup {None}) : (a = None) = (d = None) /\ a <= d}
Adds == {[op |-> "add", t |-> t, r |-> Row(0, st, p[1], p[2])] : t \in Trips, st \in Stops, p \in RowTimes}
Replaces(z) == UNION {{[op |-> "replace", t |-> t, r |-> Row(z[t][i].seq, z[t][i].stop, p[1], p[2])]
                        : i \in DOMAIN z[t], p \in RowTimes} : t \in Trips}
Clears == {[op |-> "clear", t |-> t] : t \in Trips}
Init == s = [t \in Trips |-> <<>>] /\ hist = <<>>
Step(e) == /\ (e.op = "add" => Len(s[e.t]) < MaxLen) /\ s' = Do(s, e)
Next == \E e \in Adds \cup Replaces(s) \cup Clears : Step(e) /\ hist' = <<e>>
Spec == Init /\ [][Next]_vars
View == s
Ordered == \A t \in Trips : \A i \in 1..(Len(s[t]) - 1) : s[t][i].seq < s[t][i + 1].seq
VisitsCount == \A t \in Trips : Cardinality(UNION {{v \in Visits(s, st) : v[1] = t} : st \in Stops}) = Len(s[t])
\* an edit touches one trip; replacing keeps stops, order and count
OneTrip == [][\A t \in Trips : (hist'[1].t # t) => (s'[t] = s[t])]_vars
AddAppends == [][(hist'[1].op = "add") => (LET t == hist'[1].t IN Front(s'[t]) = s[t])]_vars
ReplaceKeeps == [][(hist'[1].op = "replace") => (LET t == hist'[1].t IN Pattern(s'[t]) = Pattern(s[t]))]_vars
\* an addition without report leaves the times in order if they were
Monotone(rows) == \A i, j \in DOMAIN rows : (i < j /\ Time(rows[i]) # None /\ Time(rows[j]) # None) => Time(rows[i]) <= Time(rows[j])
SilentAddMonotone == [][(hist'[1].op = "add") => (LET e == hist'[1] IN
    (Monotone(s[e.t]) /\ Reports(s, e) = 0) => Monotone(s'[e.t]))]_vars
GenNext == Len(hist) < Depth /\ \E e \in Adds \cup Replaces(s) \cup Clears :
     /\ (e.op = "clear" => Len(s[e.t]) > 1) /\ s' = Do(s, e) /\ hist' = Append(hist, e)
GenSpec == Init /\ [][GenNext]_vars
Emit == (Len(hist) = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
