------------------------------ MODULE ImportMC ------------------------------
(* The importer at work: pattern by pattern, in any order; an id made up for  *)
(* a new shape is one that no shape has.                                      *)
EXTENDS Import
CONSTANTS Sites, MaxLines
VARIABLES f, todo, shapes, has, last
vars == <<f, todo, shapes, has, last>>
Runs1 == {<<a, b>> : a \in Sites, b \in Sites} \cup {<<a, b, d>> : a \in Sites, b \in Sites, d \in Sites}
Lines0 == {q \in Runs1 : \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]}
Pats == {<<>>} \cup {<<a>> : a \in Sites} \cup {<<a, b>> : a \in Sites, b \in Sites} \cup {<<0, 1000, a>> : a \in Sites}
Nets == UNION {[1..k -> Lines0] : k \in 1..MaxLines}
TripOf(i, p) == [id |-> i, route |-> 1, stops |-> p, pat |-> p, shape |-> IF i = 3 THEN 1 ELSE 0]
Init == /\ \E n \in Nets, p \in Pats, q \in {<<0, 1000>>} :
             f = [lines |-> [i \in DOMAIN n |-> [name |-> ToString(i), pts |-> n[i]]], shapes |-> <<[id |-> 1, pts |-> <<7, 8>>]>>, max |-> 150,
                  trips |-> <<TripOf(1, p), TripOf(2, q), TripOf(3, p)>>]
        /\ todo = {<<1, f.trips[i].pat>> : i \in 1..3} /\ shapes = {<<1, <<7, 8>>>>} /\ has = [i \in 1..3 |-> f.trips[i].shape] /\ last = 0
Chain(p) == LET lo == Min({p[i] : i \in DOMAIN p})  hi == Max({p[i] : i \in DOMAIN p})
                V == UNION {{q.pts[i] : i \in DOMAIN q.pts} : q \in Edges(f)}
                up == SetToSortSeq({v \in V : lo - f.max < v /\ v < hi + f.max}, LAMBDA a, b : a < b) IN
            IF First(p) <= Last1(p) THEN up ELSE Reverse(up)
Fresh(n) == Min({k \in n + 1 .. n + 5 : ~\E x \in shapes : x[1] = k})
Give(p, pts) == LET k == Fresh(last) IN
  /\ shapes' = shapes \cup {<<k, pts>>} /\ last' = k
  /\ has' = [i \in DOMAIN has |-> IF f.trips[i].pat = p THEN k ELSE has[i]]
Do(p) == /\ todo' = todo \ {<<1, p>>} /\ UNCHANGED f
         /\ CASE Gets(f, p) = "line" -> \E k \in BestLines(f, p) : Give(p, f.lines[k].pts)
              [] Gets(f, p) = "path" /\ Steady(p) /\ PathOk(f, p, Chain(p)) -> Give(p, Chain(p))
              [] OTHER -> UNCHANGED <<shapes, has, last>>
Next == \E x \in todo : Do(x[2])
Spec == Init /\ [][Next]_vars
OwnKept == <<1, <<7, 8>>>> \in shapes /\ \A x, y \in shapes : x[1] = y[1] => x = y
\* a shape given comes near every stop at its turn, if the pattern runs one way
Comes == \A i \in DOMAIN has : <<1, f.trips[i].pat>> \notin todo /\ has[i] # f.trips[i].shape =>
           \E x \in shapes : x[1] = has[i] /\ Greedy(f.trips[i].stops, x[2]) <= f.max
Shared == has[1] = has[3] \/ Gets(f, f.trips[1].stops) \in {"none", "path"} \/ <<1, f.trips[1].pat>> \in todo
\* a line that begins and ends at the stops and passes the others is always found
Found == \A i \in DOMAIN has : LET p == f.trips[i].stops IN
  Len(p) > 1 /\ (\E k \in DOMAIN f.lines : f.lines[k].pts = p) => Gets(f, p) = "line" /\ LineFits(f, p) = 0
=============================================================================
