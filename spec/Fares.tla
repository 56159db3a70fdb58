------------------------------- MODULE Fares -------------------------------
(* Fares, fare rules, fare zones and transfers of a schedule: what each      *)
(* added row changes and which defects are reported for it.                  *)
(* A value is [k |-> "none" | "int" | "text", v |-> number].                 *)
EXTENDS Integers, Sequences, FiniteSets

None(x) == x.k = "none"
IsInt(x, S) == x.k = "int" /\ x.v \in S

\* ---- rows: the columns a defect is reported for (a bag as a sequence)
FareDefects(f) ==
     (IF f.id = "" THEN <<"fare_id">> ELSE <<>>)
  \o (IF f.price.k = "num" /\ f.price.v >= 0 THEN <<>> ELSE <<"price">>)
  \o (IF f.currency = "ok" THEN <<>> ELSE <<"currency_type">>)
  \o (IF IsInt(f.pay, 0..1) THEN <<>> ELSE <<"payment_method">>)
  \o (IF None(f.transfers) \/ IsInt(f.transfers, 0..2) THEN <<>> ELSE <<"transfers">>)
  \o (IF None(f.dur) \/ (f.dur.k = "int" /\ f.dur.v >= 0) THEN <<>> ELSE <<"transfer_duration">>)

RuleDefects(st, r) ==
  IF r.fare = "" THEN <<"fare_id">>
  ELSE (IF r.route # "" /\ r.route \notin st.routes THEN <<"route_id">> ELSE <<>>)
    \o (IF r.origin # "" /\ r.origin \notin st.zones THEN <<"origin_id">> ELSE <<>>)
    \o (IF r.dest # "" /\ r.dest \notin st.zones THEN <<"destination_id">> ELSE <<>>)
    \o (IF r.contains # "" /\ r.contains \notin st.zones THEN <<"contains_id">> ELSE <<>>)
    \o (IF r.fare \notin DOMAIN st.fares THEN <<"fare_id">> ELSE <<>>)

\* transfers: t = [from, to, type, time, tag]; the defects that keep it out
TypeOk(t) == None(t.type) \/ IsInt(t.type, 0..3)
Type(t) == IF None(t.type) THEN 0 ELSE IF t.type.k = "int" THEN t.type.v ELSE -1
BeforeAdd(t) ==
     (IF t.from = "" THEN <<"from_stop_id">> ELSE <<>>)
  \o (IF t.to = "" THEN <<"to_stop_id">> ELSE <<>>)
  \o (IF TypeOk(t) THEN <<>> ELSE <<"transfer_type">>)
  \o (IF None(t.time) THEN <<>>
      ELSE (IF Type(t) # 2 THEN <<"time without type 2">> ELSE <<>>)
        \o (IF t.time.k = "text" THEN <<"min_transfer_time">>
            ELSE IF t.time.v < 0 \/ t.time.v >= 86400 THEN <<"min_transfer_time">>
            ELSE IF t.time.v >= 10800 THEN <<"large min_transfer_time">>
            ELSE <<>>))
Rejected(t) == t.from = "" \/ t.to = "" \/ ~TypeOk(t) \/ t.time.k = "text"
\* places are <<1, metres along a meridian>>, or <<0, 0>> when not known
Abs(x) == IF x < 0 THEN -x ELSE x
AfterAdd(st, t) ==
  LET bad == (IF t.from \in DOMAIN st.stops THEN <<>> ELSE <<"from_stop_id">>)
          \o (IF t.to \in DOMAIN st.stops THEN <<>> ELSE <<"to_stop_id">>)
  IN IF bad # <<>> THEN bad
     ELSE LET a == st.stops[t.from]  b == st.stops[t.to] IN
       IF a[1] = 0 \/ b[1] = 0 THEN <<>>
       ELSE LET d == Abs(a[2] - b[2]) IN
            (IF d > 10000 THEN <<"distance">> ELSE IF d > 2000 THEN <<"long distance">> ELSE <<>>)
         \o (IF t.time.k = "int" /\ t.time.v >= 0 /\ 2 * (t.time.v + 120) < d THEN <<"too fast">> ELSE <<>>)
Duplicate(st, t) == \E i \in DOMAIN st.transfers : st.transfers[i].from = t.from /\ st.transfers[i].to = t.to

\* ---- the schedule: routes, stops, zones, fares (id -> [tag, rules]), transfers
Empty == [routes |-> {}, stops |-> <<>>, zones |-> {}, fares |-> <<>>, transfers |-> <<>>]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]

AddRoute(st, id) == [st EXCEPT !.routes = @ \union {id}]
AddStop(st, s) == IF s.id \in DOMAIN st.stops THEN st
                  ELSE [st EXCEPT !.stops = Put(@, s.id, s.pos), !.zones = IF s.zone = "" THEN @ ELSE @ \union {s.zone}]
AddFare(st, f) == IF f.id \in DOMAIN st.fares THEN st ELSE [st EXCEPT !.fares = Put(@, f.id, [tag |-> f.tag, rules |-> <<>>])]
FareReport(st, f) == FareDefects(f) \o (IF f.id \in DOMAIN st.fares THEN <<"duplicate">> ELSE <<>>)
AddRule(st, r) == IF r.fare = "" \/ r.fare \notin DOMAIN st.fares THEN st
                  ELSE [st EXCEPT !.fares[r.fare].rules = Append(@, r.tag)]
AddTransfer(st, t) == [st EXCEPT !.transfers = Append(@, t)]
DupReport(st, t) == IF Duplicate(st, t) THEN <<"duplicate">> ELSE <<>>
\* loading: checked, left out when defective, added, checked again
LoadTransfer(st, t) == IF Rejected(t) THEN st ELSE AddTransfer(st, t)
LoadReport(st, t) == BeforeAdd(t) \o (IF Rejected(t) THEN <<>> ELSE DupReport(st, t) \o AfterAdd(st, t))
\* validating one that is in the schedule
ValidateReport(st, t) == BeforeAdd(t) \o (IF Rejected(t) THEN <<>> ELSE AfterAdd(st, t))
=============================================================================
