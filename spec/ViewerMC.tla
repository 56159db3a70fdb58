------------------------------ MODULE ViewerMC ------------------------------
(* The server at work on one request, item by item, in any order that the     *)
(* schedule may hand it the items; its answers are the right ones.            *)
EXTENDS Viewer
CONSTANTS Trips, Times, Lons
VARIABLES f, req, todo, ans, cur
vars == <<f, req, todo, ans, cur>>
MCLimit == 2
MCSamples == 2
Day == 3
Cal1(b) == [start |-> 0, end |-> 9, dow |-> [i \in 1..7 |-> b], exc |-> <<>>]
Stop0(i, x) == [id |-> ToString(i), name |-> "n", lat |-> 0, lon |-> x, type |-> 0, lowid |-> "", lowname |-> "n"]
Trip0(i, t, p) == [id |-> ToString(i), route |-> 1, per |-> p, hs |-> "", shape |-> 0, kind |-> IF p = 1 THEN "" ELSE "1", at |-> <<t, t + 1>>,
                visits |-> <<[stop |-> 1, arr |-> t, dep |-> t, hs |-> ""], [stop |-> 2, arr |-> t + 1, dep |-> t + 1, hs |-> ""]>>]
Feeds == {[stops |-> <<Stop0(1, x[1]), Stop0(2, x[2]), Stop0(3, x[3])>>, routes |-> <<[id |-> "r", short |-> "1", long |-> ""]>>,
           per |-> <<[id |-> "w", cal |-> Cal1(TRUE)], [id |-> "v", cal |-> Cal1(FALSE)]>>,
           trips |-> [i \in 1..Trips |-> Trip0(i, t[i], p[i])], rank |-> <<"", "1", "n to n, 2 stops">>] :
          x \in {<<a, b, c>> : a \in Lons, b \in Lons, c \in {0}}, t \in [1..Trips -> Times], p \in [1..Trips -> {1, 2}]}
Reqs == [kind : {"next", "pattern"}, time : {0, 1, 3}, d : {-1, Day}, n : {0}] \cup [kind : {"near"}, time : Lons, d : {0}, n : 1..3]
One(F) == \A i, j \in 1..3 : F.stops[i].lon = F.stops[j].lon
Simple(F) == \A t \in DOMAIN F.trips : F.trips[t].per = 1 /\ F.trips[t].at[1] = 0
Init == /\ f \in Feeds /\ req \in Reqs /\ (IF req.kind = "near" THEN Simple(f) ELSE One(f))
        /\ todo = (CASE req.kind = "next" -> Visits(f, 1) [] req.kind = "pattern" -> TripsOf(f, 1) [] OTHER -> DOMAIN f.stops)
        /\ ans = <<>> /\ cur = "work"
\* the next trips: the earliest visit not looked at
At0(v) == f.trips[v[1]].at[v[2]]
NextVisit == /\ req.kind = "next" /\ cur = "work"
             /\ IF todo = {} \/ Len(ans) = Limit THEN cur' = "done" /\ UNCHANGED <<todo, ans>>
                ELSE \E v \in todo : /\ \A u \in todo : At0(v) <= At0(u)
                       /\ todo' = todo \ {v} /\ cur' = cur
                       /\ ans' = IF At0(v) >= req.time /\ Runs(f, v[1], req.d) THEN Append(ans, Shown(f, v)) ELSE ans
\* a pattern: the trips of the day in order, then the sample
NextTrip == /\ req.kind = "pattern" /\ cur = "work"
            /\ IF todo = {} THEN cur' = "cut" /\ UNCHANGED <<todo, ans>>
               ELSE \E t \in todo : /\ \A u \in todo : Start(f, t) <= Start(f, u)
                      /\ todo' = todo \ {t} /\ cur' = cur /\ ans' = IF Runs(f, t, req.d) THEN Append(ans, t) ELSE ans
First0(q) == IF \E i \in DOMAIN q : Start(f, q[i]) >= req.time THEN Min({i \in DOMAIN q : Start(f, q[i]) >= req.time}) - 1 ELSE Len(q)
Cut == /\ req.kind = "pattern" /\ cur = "cut" /\ cur' = "done" /\ UNCHANGED todo
       /\ LET n == Len(ans)
              k == IF n <= Samples THEN 0 ELSE IF n - (First0(ans) + Samples) < 0 THEN n - Samples ELSE First0(ans)
              q == SubSeq(ans, k + 1, LET e == k + Samples IN IF e > n THEN n ELSE e) IN
          ans' = <<[name |-> "n to n, 2 stops", id |-> 7, before |-> k, sample |-> [i \in DOMAIN q |-> <<Start(f, q[i]), f.trips[q[i]].id>>],
                    after |-> IF n <= Samples THEN 0 ELSE n - k - Samples, special |-> IF \E i \in DOMAIN ans : f.trips[ans[i]].kind = "1" THEN 1 ELSE 0]>>
\* the nearest stops: insert each, drop the last
Farther(s, u) == Far(f.stops[s], 0, req.time) > Far(f.stops[u], 0, req.time)
Insert(q, s) == LET k == Cardinality({i \in DOMAIN q : ~Farther(q[i], s)}) IN SubSeq(q, 1, k) \o <<s>> \o SubSeq(q, k + 1, Len(q))
NextStop == /\ req.kind = "near" /\ cur = "work"
            /\ IF todo = {} THEN cur' = "done" /\ UNCHANGED <<todo, ans>>
               ELSE \E s \in todo : /\ todo' = todo \ {s} /\ cur' = cur
                      /\ ans' = IF Len(ans) < req.n THEN Insert(ans, s) ELSE IF Farther(ans[Len(ans)], s) THEN SubSeq(Insert(ans, s), 1, req.n) ELSE ans
Next == (NextVisit \/ NextTrip \/ Cut \/ NextStop) /\ UNCHANGED <<f, req>>
Spec == Init /\ [][Next]_vars
Done == cur = "done"
NextRight == Done /\ req.kind = "next" => NextOk(f, 1, req.time, req.d, ans)
PatternsRight == Done /\ req.kind = "pattern" => PatternsOk(f, 1, req.time, req.d, ans)
NearRight == Done /\ req.kind = "near" => NearestOk(f, 0, req.time, req.n, ans)
\* a sample has the first trip at or after the requested time, if there is one
SampleUseful == Done /\ req.kind = "pattern" =>
  \A t \in TripsOf(f, 1) : Runs(f, t, req.d) /\ Start(f, t) >= req.time =>
    \E i \in DOMAIN ans[1].sample : ans[1].sample[i][1] >= req.time /\ ans[1].sample[i][1] <= Start(f, t)
=============================================================================
