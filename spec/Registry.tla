------------------------------ MODULE Registry ------------------------------
(* The registries of a schedule: for each kind of entity the ids in use and  *)
(* the object (tag) each id denotes, the default agency and calendar, the    *)
(* trips listed by each route, and the columns in use of each table.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Kinds == {"agency", "service", "stop", "route", "trip", "shape", "fare"}
None == "(none)"
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [reg |-> [k \in Kinds |-> <<>>], def |-> [k \in {"agency", "service"} |-> None], trips |-> <<>>,
          cols |-> [k \in {"agency", "stop", "route", "trip"} |-> {}], used |-> {}]
Ids(st, k) == DOMAIN st.reg[k]

\* ---- adding an object x = [kind, id, tag, ref, cols] with a given id
AgencyKnown(st, ref) == ref \in Ids(st, "agency") \/ (ref = "" /\ Cardinality(Ids(st, "agency")) = 1)
Taken(st, x) == x.id \in Ids(st, x.kind)
Refused(st, x) == \/ x.kind = "stop" /\ x.id = ""
                  \/ Taken(st, x)
                  \/ x.kind = "route" /\ ~AgencyKnown(st, x.ref)
Enter(st, x) ==
  LET a == [st EXCEPT !.reg[x.kind] = Put(@, x.id, x.tag)]
      b == IF x.kind \in DOMAIN st.cols THEN [a EXCEPT !.cols[x.kind] = @ \cup x.cols] ELSE a
      c == IF x.kind = "route" THEN [b EXCEPT !.trips = Put(@, x.id, <<>>)] ELSE b
  IN IF x.kind = "trip" /\ x.ref \in DOMAIN c.trips THEN [c EXCEPT !.trips[x.ref] = Append(@, x.tag)] ELSE c
Add(st, x) == IF Refused(st, x) THEN st ELSE Enter(st, x)
AddReport(st, x) == IF x.kind = "stop" /\ x.id = "" THEN <<>>
                    ELSE IF Taken(st, x) THEN <<"duplicate">>
                    ELSE IF Refused(st, x) THEN <<"agency_id">> ELSE <<>>
\* a trip added with validation has its references checked
TripReport(st, x) == (IF x.ref = "" \/ x.ref \notin Ids(st, "route") THEN <<"route_id">> ELSE <<>>)
                  \o (IF x.service = "" \/ x.service \notin Ids(st, "service") THEN <<"service_id">> ELSE <<>>)

\* ---- defaults: made if there is none, the only one, or nothing
Default(st, k) == IF st.def[k] # None THEN st.def[k]
                  ELSE IF Cardinality(Ids(st, k)) = 1 THEN CHOOSE i \in Ids(st, k) : TRUE ELSE None
Makes(st, k) == st.def[k] = None /\ Ids(st, k) = {}
NewDefault(st, k, id, tag, cols) ==
  LET x == [kind |-> k, id |-> id, tag |-> tag, ref |-> "", cols |-> cols]
  IN [Add(st, x) EXCEPT !.def[k] = id]
GetDefault(st, k, id, tag, cols) == IF Makes(st, k) THEN NewDefault(st, k, id, tag, cols) ELSE [st EXCEPT !.def[k] = Default(st, k)]
SetDefault(st, x) == [Add(st, x) EXCEPT !.def[x.kind] = x.id]
=============================================================================
