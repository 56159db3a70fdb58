------------------------------ MODULE FaresMC ------------------------------
(* All histories of a small schedule: the zones and fares known are exactly  *)
(* those added, links lead to the fare named, nothing is lost silently.      *)
EXTENDS Fares, TLC
CONSTANTS Depth
VARIABLES st, log, rep
vars == <<st, log, rep>>
V(k, v) == [k |-> k, v |-> v]
Fs == {[id |-> i, tag |-> g, price |-> p, currency |-> "ok", pay |-> V("int", 0), transfers |-> t, dur |-> V("none", 0)] :
       i \in {"f", "g"}, g \in {1, 2}, p \in {V("num", 5), V("num", -1)}, t \in {V("none", 0), V("int", 3)}}
Rs == {[fare |-> i, tag |-> 1, route |-> r, origin |-> z, dest |-> "", contains |-> ""] : i \in {"f", "g"}, r \in {"", "r"}, z \in {"", "z"}}
Ss == {[id |-> i, zone |-> z, pos |-> <<1, p>>] : i \in {"s", "t"}, z \in {"", "z"}, p \in {0, 3000}}
Ts == {[from |-> "s", to |-> i, type |-> t, time |-> m, tag |-> 1] : i \in {"", "t"}, t \in {V("int", 2), V("int", 4)}, m \in {V("none", 0), V("int", 60)}}
Init == st = Empty /\ log = <<>> /\ rep = <<>>
Do(op, x, new, r) == Len(log) < Depth /\ st' = new /\ log' = Append(log, <<op, x>>) /\ rep' = Append(rep, r)
Next == \/ \E x \in Fs : Do("fare", x, AddFare(st, x), FareReport(st, x))
        \/ \E x \in Rs : Do("rule", x, AddRule(st, x), RuleDefects(st, x))
        \/ \E x \in Ss : Do("stop", x, AddStop(st, x), <<>>)
        \/ \E x \in Ts : Do("transfer", x, LoadTransfer(st, x), LoadReport(st, x))
        \/ Do("route", "r", AddRoute(st, "r"), <<>>)
Spec == Init /\ [][Next]_vars
Ops(o) == {i \in DOMAIN log : log[i][1] = o}
FirstStop(id) == CHOOSE i \in Ops("stop") : log[i][2].id = id /\ \A j \in Ops("stop") : log[j][2].id = id => i <= j
\* a zone is known exactly if a stop of the schedule uses it
Zones == st.zones = {log[FirstStop(id)][2].zone : id \in DOMAIN st.stops} \ {""}
\* an id denotes the first fare added under it, a later one is reported
First == \A i \in Ops("fare") :
   LET f == log[i][2]  js == {j \in Ops("fare") : log[j][2].id = f.id} IN
   IF \A j \in js : i <= j THEN st.fares[f.id].tag = f.tag
   ELSE \E n \in DOMAIN rep[i] : rep[i][n] = "duplicate"
\* a rule is linked to the fare it names, or reported
Rules == \A i \in Ops("rule") :
   LET r == log[i][2] IN
   \/ \E n \in DOMAIN rep[i] : rep[i][n] = "fare_id"
   \/ \E j \in Ops("fare") : j < i /\ log[j][2].id = r.fare
Count == LET linked == UNION {{<<f, n>> : n \in DOMAIN st.fares[f].rules} : f \in DOMAIN st.fares}
         IN Cardinality(linked) = Cardinality({i \in Ops("rule") : \A n \in DOMAIN rep[i] : rep[i][n] # "fare_id"})
\* a transfer is in the schedule or reported; equal ends are reported
Trans == /\ Len(st.transfers) + Cardinality({i \in Ops("transfer") : Rejected(log[i][2])}) = Cardinality(Ops("transfer"))
         /\ \A i \in Ops("transfer") : Rejected(log[i][2]) => rep[i] # <<>>
         /\ Cardinality({i \in Ops("transfer") : \E n \in DOMAIN rep[i] : rep[i][n] = "duplicate"}) =
            Len(st.transfers) - Cardinality({<<t.from, t.to>> : t \in {st.transfers[i] : i \in DOMAIN st.transfers}})
Inv == Zones /\ First /\ Rules /\ Count /\ Trans
=============================================================================
