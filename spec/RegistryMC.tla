---------------------------- MODULE RegistryMC ----------------------------
(* All short histories: an id denotes the first object added under it for    *)
(* ever; rejected additions are reported and change nothing; made-up ids are *)
(* new; defaults are known.                                                  *)
EXTENDS Registry
CONSTANT Depth
VARIABLES st, n, ev
vars == <<st, n, ev>>
X(k, i, r) == [kind |-> k, id |-> i, tag |-> n, ref |-> r, cols |-> {k, i}, service |-> ""]
Init == st = Empty /\ n = 0 /\ ev = [rep |-> <<>>, same |-> TRUE, made |-> {}]
Step(new, rep, made) == st' = new /\ n' = n + 1 /\ ev' = [rep |-> rep, same |-> (new = st), made |-> made]
Free(k) == {i \in {"0", "1", "2", "3"} : i \notin Ids(st, k)}
Next == /\ n < Depth
        /\ \/ \E k \in {"agency", "stop", "fare"}, i \in {"", "0", "a"} : Step(Add(st, X(k, i, "")), AddReport(st, X(k, i, "")), {})
           \/ \E i \in {"0", "r"}, a \in {"", "0", "a", "x"} : Step(Add(st, X("route", i, a)), AddReport(st, X("route", i, a)), {})
           \/ \E i \in {"0", "t"}, a \in {"", "0", "r"} : LET x == X("trip", i, a) IN
                Step(Add(st, x), AddReport(st, x) \o (IF Refused(st, x) THEN <<>> ELSE TripReport(st, x)), {})
           \/ \E k \in {"agency", "service"}, i \in {"0", "1"} : i \in Free(k) /\ Step(GetDefault(st, k, i, n, {}), <<>>, IF Makes(st, k) THEN {<<k, i>>} ELSE {})
           \/ \E k \in {"agency", "service"}, i \in {"0", "a"} : Step(SetDefault(st, X(k, i, "")), AddReport(st, X(k, i, "")), {})
Spec == Init /\ [][Next]_vars
Stable == [][\A k \in Kinds : \A i \in Ids(st, k) : i \in Ids(st', k) /\ st'.reg[k][i] = st.reg[k][i]]_vars
OnceKnown == \A k \in Kinds : \A i, j \in Ids(st, k) : st.reg[k][i] = st.reg[k][j] => i = j
Quiet == [][(\E i \in DOMAIN ev'.rep : ev'.rep[i] \in {"duplicate", "agency_id"}) => (st'.reg = st.reg /\ st'.trips = st.trips /\ st'.cols = st.cols)]_vars
DefaultsKnown == \A k \in {"agency", "service"} : st.def[k] # None => st.def[k] \in Ids(st, k)
MadeUpIsNew == [][\A m \in ev'.made : m[2] \notin Ids(st, m[1]) /\ m[2] \in Ids(st', m[1])]_vars
\* each listed trip is known and listed once
Listed == /\ DOMAIN st.trips = Ids(st, "route")
          /\ \A r \in DOMAIN st.trips : \A i, j \in DOMAIN st.trips[r] : st.trips[r][i] = st.trips[r][j] => i = j
          /\ \A r \in DOMAIN st.trips : \A i \in DOMAIN st.trips[r] : \E t \in Ids(st, "trip") : st.reg["trip"][t] = st.trips[r][i]
RoutesHaveAgency == Ids(st, "route") # {} => Ids(st, "agency") # {}
=============================================================================
