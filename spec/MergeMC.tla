------------------------------ MODULE MergeMC ------------------------------
(* Merging tiny feeds kind by kind: whatever the feeds, what the rules and    *)
(* the carried rows give is a sound feed in which nothing is lost.            *)
EXTENDS Merge
CONSTANTS Small
VARIABLES A, B, M, m, at
vars == <<A, B, M, m, at>>
\* ---- the feeds
Agencies == [i : {"1", ""}, name : IF Small THEN {"a"} ELSE {"a", "b"}]
Stops == [s : {"", "z"}, q : {"none", "", "y"}, far : BOOLEAN]
Routes == [ag : BOOLEAN, url : {"", "u"}]
Trips == [block : {"", "b"}]
Fares == [price : IF Small THEN {"1"} ELSE {"1", "2"}, rule : BOOLEAN]
Row0(r) == [x \in {x \in DOMAIN r : r[x] # ""} |-> r[x]]
NoRows == [f \in Files |-> {}]
Feed0(a, s, r, t, f) ==
  LET st == {Row0([stop_id |-> "s", stop_name |-> "N", zone_id |-> s.s, parent_station |-> ""])}
            \cup (IF s.q = "none" THEN {} ELSE {Row0([stop_id |-> "q", stop_name |-> "n", zone_id |-> s.q, parent_station |-> "s"])}) IN
  [tab |-> ("agency.txt" :> {Row0([agency_id |-> a.i, agency_name |-> a.name])}) @@ ("stops.txt" :> st)
     @@ ("routes.txt" :> {Row0([route_id |-> "r", agency_id |-> IF r.ag THEN a.i ELSE "", route_url |-> r.url])})
     @@ ("trips.txt" :> {Row0([trip_id |-> "t", route_id |-> "r", service_id |-> "w", block_id |-> t.block])})
     @@ ("stop_times.txt" :> {[trip_id |-> "t", stop_id |-> "s", place |-> "0"]})
     @@ ("fare_attributes.txt" :> {[fare_id |-> "f", price |-> f.price]})
     @@ ("fare_rules.txt" :> IF f.rule THEN {Row0([fare_id |-> "f", route_id |-> "r", origin_id |-> s.s])} ELSE {})
     @@ ("transfers.txt" :> {[from_stop_id |-> "s", to_stop_id |-> "s"]}) @@ ("calendar.txt" :> {[service_id |-> "w"]}) @@ NoRows,
   ids |-> [k \in KindSet |-> CASE k = "agency" -> {a.i} [] k = "stop" -> {"s"} \cup (IF s.q = "none" THEN {} ELSE {"q"}) [] k = "route" -> {"r"} [] k = "trip" -> {"t"}
              [] k = "service" -> {"w"} [] k = "fare" -> {"f"} [] OTHER -> {}],
   at |-> [i \in {"s", "q"} |-> IF s.far THEN <<90, 0>> ELSE <<0, 0>>], ends |-> <<>>, cal |-> <<>>]
Feeds == IF Small THEN {Feed0(a, s, [ag |-> g, url |-> IF f.rule THEN "u" ELSE ""], [block |-> "b"], f) : a \in Agencies, s \in Stops, g \in BOOLEAN, f \in Fares}
         ELSE {Feed0(a, s, r, t, f) : a \in Agencies, s \in Stops, r \in {x \in Routes : x.ag}, t \in {[block |-> "b"]}, f \in Fares}
OldFeeds == IF Small THEN {X \in Feeds : X.at["s"] = <<0, 0>> /\ \A x \in X.tab["routes.txt"] : C(x, "route_url") # "u"} ELSE {X \in Feeds : X.at["s"] = <<0, 0>>}
Low == ("N" :> "n") @@ ("n" :> "n")
P == [stopd |-> 10000, shaped |-> 10000]

\* ---- the merge
Steps == <<"agency", "stop", "route", "service", "fare", "shape", "trip", "rule", "transfer">>
FilesOf(k) == {f \in Files : Needs(f) = k}
U == Unified(A, B, Low, P)
Rep(X, Y, k, mark) == [i \in X.ids[k] |-> IF i \in U[k] \/ (i \notin Y.ids[k] /\ i # "") THEN i ELSE i \o mark]
ZoneMap(X, mark, shared) == [z \in ZonesOf(X) |-> IF z \in shared THEN z ELSE z \o mark]
Init == A \in OldFeeds /\ B \in Feeds /\ M = [tab |-> NoRows] /\ at = 1
        /\ m = [a |-> [k \in KindSet |-> <<>>], b |-> [k \in KindSet |-> <<>>], za |-> <<>>, zb |-> <<>>]
Step ==
  /\ at <= Len(Steps) /\ at' = at + 1 /\ UNCHANGED <<A, B>>
  /\ LET k == Steps[at]
         m1 == IF k \in KindSet THEN [m EXCEPT !.a[k] = Rep(A, B, k, "_a"), !.b[k] = Rep(B, A, k, "_b")] ELSE m
         shared == IF k = "stop" THEN {C(RowOf(B, "stop", i), "zone_id") : i \in U["stop"]} \ {""} ELSE {}
         m2 == IF k = "stop" THEN [m1 EXCEPT !.za = ZoneMap(A, "_a", shared), !.zb = ZoneMap(B, "_b", shared)] ELSE m1
         Lone1(f) == IF Entity(f) THEN Lone(A, B, m2, f) \cup MetRows(A, B, m2, k) ELSE Expected(A, B, m2, f)
     IN /\ m' = m2
        /\ M' = [tab |-> [f \in Files |-> IF f = "trips.txt" /\ k = "trip"
                           THEN {To(TripRow(m2.a, x), "block_id", IF C(x, "block_id") = "" THEN "" ELSE "a_" \o x.block_id) : x \in A.tab[f]}
                                \cup {To(TripRow(m2.b, x), "block_id", IF C(x, "block_id") = "" THEN "" ELSE "b_" \o x.block_id) : x \in B.tab[f]}
                           ELSE IF f \in FilesOf(k) THEN Lone1(f) ELSE M.tab[f]]]
Next == Step
Spec == Init /\ [][Next]_vars
Done(k) == \E i \in 1..(at - 1) : Steps[i] = k
\* ---- what follows
Ids(f, c) == {C(x, c) : x \in M.tab[f]}
Closed == /\ (Done("route") => Ids("routes.txt", "agency_id") \subseteq Ids("agency.txt", "agency_id"))
          /\ (Done("stop") => Ids("stops.txt", "parent_station") \subseteq Ids("stops.txt", "stop_id") \cup {""})
          /\ (Done("trip") => /\ Ids("trips.txt", "route_id") \subseteq Ids("routes.txt", "route_id") /\ Ids("trips.txt", "service_id") \subseteq Ids("calendar.txt", "service_id")
                              /\ Ids("stop_times.txt", "trip_id") \subseteq Ids("trips.txt", "trip_id") /\ Ids("stop_times.txt", "stop_id") \subseteq Ids("stops.txt", "stop_id"))
          /\ (Done("rule") => /\ Ids("fare_rules.txt", "fare_id") \subseteq Ids("fare_attributes.txt", "fare_id") /\ Ids("fare_rules.txt", "route_id") \subseteq Ids("routes.txt", "route_id") \cup {""}
                              /\ Ids("fare_rules.txt", "origin_id") \subseteq Ids("stops.txt", "zone_id") \cup {""})
          /\ (Done("transfer") => Ids("transfers.txt", "from_stop_id") \subseteq Ids("stops.txt", "stop_id"))
OneRowPerId == \A k \in {"agency", "stop", "route", "fare", "trip"} : Done(k) =>
  /\ Cardinality(M.tab[FileOf(k)]) = Cardinality({C(x, IdOf(k)) : x \in M.tab[FileOf(k)]})
  /\ Cardinality(M.tab[FileOf(k)]) = Cardinality(A.ids[k]) + Cardinality(B.ids[k]) - Cardinality(U[k])
  /\ (k = "agency" /\ Cardinality(M.tab["agency.txt"]) > 1 => "" \notin Ids("agency.txt", "agency_id"))
Represented1 == \A k \in KindSet : Done(k) => OneEach(A, B, m, k) /\ Apart(m, k) /\ KeptIds(A, B, m, k) /\ Met(m, k) = U[k]
ZonesApart == Done("stop") => GoodZones(A, B, m)
BlocksApart == Done("trip") => Blocks(A, B, M, m)
Values == \A k \in {"agency", "stop", "route", "fare"} : Done(k) => MetValues(A, B, M, m, k) /\ Same1(A, B, M, m, FileOf(k))
=============================================================================
