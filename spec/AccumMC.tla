------------------------------ MODULE AccumMC ------------------------------
(* The bounded list kept incrementally (insert in order, drop the last) is    *)
(* at every moment the one defined from the whole log; totals agree.          *)
EXTENDS Accum, TLC
CONSTANTS Depth, MaxLimit
VARIABLES st, list, ignored
vars == <<st, list, ignored>>
Xs == {[lvl |-> l, cls |-> k, dist |-> d] : l \in {"E", "W"}, k \in {"StopsTooClose", "TooFastTravel"}, d \in {1, 2}}
      \cup {[lvl |-> l, cls |-> k, dist |-> 1] : l \in {"E", "N"}, k \in {"Other", "Ignored"}}
Keys == Levels \X {"StopsTooClose", "TooFastTravel", "Other", "Ignored"}
Init == /\ st \in {Start0(m, {"Ignored"}) : m \in 0..MaxLimit}
        /\ list = [k \in Keys |-> <<>>] /\ ignored = 0
Insort(q, x) == LET n == Cardinality({i \in DOMAIN q : Weight(q[i]) <= Weight(x)})
                IN SubSeq(q, 1, n) \o <<x>> \o SubSeq(q, n + 1, Len(q))
Bound(q) == IF Len(q) > st.limit THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Next == \E y \in Xs :
  LET x == [lvl |-> y.lvl, cls |-> y.cls, dist |-> y.dist, tag |-> Len(st.log) + ignored] IN
  /\ Len(st.log) + ignored < Depth
  /\ st' = Report(st, x)
  /\ IF x.cls \in st.ign THEN ignored' = ignored + 1 /\ UNCHANGED list
     ELSE ignored' = ignored /\ list' = [list EXCEPT ![<<x.lvl, x.cls>>] = Bound(Insort(@, x))]
Spec == Init /\ [][Next]_vars
Incremental == \A k \in Keys : [i \in DOMAIN list[k] |-> list[k][i].tag] = Kept(st, k[1], k[2])
Sum3(f) == f["E"] + f["W"] + f["N"]
Totals == /\ Sum3([l \in Levels |-> Count(st, l)]) = Len(st.log)
          /\ \A l \in Levels : (Count(st, l) > 0) = (Classes(st, l) # {})
          /\ \A k \in Keys : Len(Kept(st, k[1], k[2])) <= st.limit /\ Dropped(st, k[1], k[2]) >= 0
          /\ \A l \in Levels : "Ignored" \notin Classes(st, l)
          /\ (Exit(st) = 0) = (\A i \in DOMAIN st.log : st.log[i].lvl = "N")
\* nothing dropped is more serious than something kept
Serious == \A k \in Keys : \A i \in Of(st, k[1], k[2]) :
   (\A n \in DOMAIN Kept(st, k[1], k[2]) : Kept(st, k[1], k[2])[n] # st.log[i].tag)
     => \A j \in Of(st, k[1], k[2]) : (\E n \in DOMAIN Kept(st, k[1], k[2]) : Kept(st, k[1], k[2])[n] = st.log[j].tag)
           => Weight(st.log[j]) <= Weight(st.log[i])
Inv == Incremental /\ Totals /\ Serious
=============================================================================
