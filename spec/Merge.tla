------------------------------- MODULE Merge -------------------------------
(* Merging an old feed A and a new feed B into one, M.                        *)
(* A schedule is [tab |-> file -> set of rows (cells without blanks; stop     *)
(* times and shape points carry their place instead of a number),             *)
(* ids |-> kind -> set of ids, at |-> stop id -> position, ends |-> shape id   *)
(* -> positions of its end points (micro-degrees), cal |-> service id ->      *)
(* calendar].  low maps texts to their lower case.                            *)
(* The rules of unification, the values and links the merged tables must      *)
(* hold given the representatives m.a[kind][id], m.b[kind][id] of the         *)
(* entities and the maps m.za, m.zb of the zones, the reports and counts,     *)
(* and the calendars.                                                         *)
EXTENDS Store, Integers
Cal == INSTANCE Calendar
Kinds == <<"agency", "stop", "route", "service", "fare", "shape", "trip">>
KindSet == ToSet(Kinds)
FileOf(k) == CASE k = "agency" -> "agency.txt" [] k = "stop" -> "stops.txt" [] k = "route" -> "routes.txt" [] k = "fare" -> "fare_attributes.txt" [] k = "trip" -> "trips.txt"
  [] k = "shape" -> "shapes.txt" [] OTHER -> "calendar.txt"
IdOf(k) == k \o "_id"
C(x, c) == IF c \in DOMAIN x THEN x[c] ELSE ""
\* the row with cell c holding v
To(x, c, v) == IF v = "" THEN [y \in DOMAIN x \ {c} |-> x[y]] ELSE (c :> v) @@ x
RowOf(X, k, i) == CHOOSE x \in X.tab[FileOf(k)] : C(x, IdOf(k)) = i
Common(A, B, k) == A.ids[k] \cap B.ids[k]

\* ---------------------------------------------------------------- the rules
AgencyOf(X, x) == IF C(x, "agency_id") # "" THEN x.agency_id ELSE IF Cardinality(X.ids.agency) = 1 THEN CHOOSE i \in X.ids.agency : TRUE ELSE ""
Alike(x, y, cols) == \A c \in cols : C(x, c) = C(y, c)
Compatible(x, y, c) == C(x, c) = "" \/ C(y, c) = "" \/ C(x, c) = C(y, c)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
\* positions p, q (micro-degrees near the equator) at most mm millimetres apart
Near(p, q, mm) == LET a == Abs(p[1] - q[1])  b == Abs(p[2] - q[2]) IN a < 2000 /\ b < 2000 /\ a * a + b * b <= (mm * mm) \div 12392
SameAgency(A, B, i) == Alike(RowOf(A, "agency", i), RowOf(B, "agency", i), {"agency_name", "agency_url", "agency_timezone"})
SameStop(A, B, i, low, mm) == LET x == RowOf(A, "stop", i)  y == RowOf(B, "stop", i) IN
  /\ low[C(x, "stop_name")] = low[C(y, "stop_name")] /\ Alike(x, y, {"zone_id", "location_type"}) /\ Near(A.at[i], B.at[i], mm)
SameRoute(A, B, i) == LET x == RowOf(A, "route", i)  y == RowOf(B, "route", i)  a == AgencyOf(A, x) IN
  /\ a = AgencyOf(B, y) /\ a \in Common(A, B, "agency") /\ SameAgency(A, B, a)
  /\ Alike(x, y, {"route_short_name", "route_long_name", "route_type"}) /\ \A c \in {"route_url", "route_color", "route_text_color"} : Compatible(x, y, c)
SameFare(A, B, i) == Alike(RowOf(A, "fare", i), RowOf(B, "fare", i), {"price", "currency_type", "payment_method", "transfers", "transfer_duration"})
SameShape(A, B, i, mm) == \A e \in {0, 2} : Near(<<A.ends[i][e + 1], A.ends[i][e + 2]>>, <<B.ends[i][e + 1], B.ends[i][e + 2]>>, mm)
Unified(A, B, low, p) ==
  [k \in KindSet |-> {i \in Common(A, B, k) :
     CASE k = "agency" -> SameAgency(A, B, i) [] k = "stop" -> SameStop(A, B, i, low, p.stopd) [] k = "route" -> SameRoute(A, B, i)
       [] k = "fare" -> SameFare(A, B, i) [] k = "shape" -> SameShape(A, B, i, p.shaped) [] OTHER -> FALSE}]

\* ---------------------------------------------------------- representatives
OneEach(A, B, m, k) == DOMAIN m.a[k] = A.ids[k] /\ DOMAIN m.b[k] = B.ids[k]
InjectiveOn(F) == \A i, j \in DOMAIN F : F[i] = F[j] => i = j
Image(F) == {F[i] : i \in DOMAIN F}
Met(m, k) == {i \in DOMAIN m.a[k] \cap DOMAIN m.b[k] : m.a[k][i] = m.b[k][i]}     \* what the merge unified
Apart(m, k) == /\ InjectiveOn(m.a[k]) /\ InjectiveOn(m.b[k])
               /\ \A i \in DOMAIN m.a[k], j \in DOMAIN m.b[k] : m.a[k][i] = m.b[k][j] => i = j
\* ids are kept where nothing stands against it; an agency without one gets one among others
KeptIds(A, B, m, k) == /\ \A i \in A.ids[k] : ((i # "" /\ i \notin B.ids[k]) \/ i \in Met(m, k)) => m.a[k][i] = i
                       /\ \A i \in B.ids[k] : ((i # "" /\ i \notin A.ids[k]) \/ i \in Met(m, k)) => m.b[k][i] = i
\* the zones of unified stops are shared, all others stay apart
ZonesOf(X) == {C(x, "zone_id") : x \in X.tab["stops.txt"]} \ {""}
SharedZones(B, m) == {C(RowOf(B, "stop", i), "zone_id") : i \in Met(m, "stop")} \ {""}
GoodZones(A, B, m) ==
  /\ ZonesOf(A) \subseteq DOMAIN m.za /\ ZonesOf(B) \subseteq DOMAIN m.zb
  /\ \A z \in SharedZones(B, m) : m.za[z] = z /\ m.zb[z] = z
  /\ \A y, z \in ZonesOf(A) : m.za[y] = m.za[z] => y = z
  /\ \A y, z \in ZonesOf(B) : m.zb[y] = m.zb[z] => y = z
  /\ \A y \in ZonesOf(A), z \in ZonesOf(B) : m.za[y] = m.zb[z] <=> (y = z /\ y \in SharedZones(B, m))

\* ---------------------------------------------------- the rows carried over
\* r: kind -> id -> representative, z: zones, of the feed X
Ref(r, k, i) == IF i = "" THEN "" ELSE r[k][i]
Zone(z, i) == IF i = "" THEN "" ELSE z[i]
AgencyRow(X, r, x) == To(x, "agency_id", r.agency[C(x, "agency_id")])
StopRow(X, r, z, x) == To(To(To(x, "stop_id", r.stop[x.stop_id]), "zone_id", Zone(z, C(x, "zone_id"))), "parent_station", Ref(r, "stop", C(x, "parent_station")))
RouteRow(X, r, x) == To(To(x, "route_id", r.route[x.route_id]), "agency_id", r.agency[AgencyOf(X, x)])
FareRow(r, x) == To(x, "fare_id", r.fare[x.fare_id])
ShapeRow(r, x) == To(x, "shape_id", r.shape[x.shape_id])
ServiceRow(r, x) == To(x, "service_id", r.service[x.service_id])
TripRow(r, x) == LET t == r.trip[x.trip_id]
                     y == To(To(To(To(x, "trip_id", t), "route_id", r.route[x.route_id]), "service_id", r.service[x.service_id]), "shape_id", Ref(r, "shape", C(x, "shape_id"))) IN
                 To(IF t = x.trip_id THEN y ELSE To(y, "original_trip_id", x.trip_id), "block_id", "")
TimeRow(r, x) == To(To(x, "trip_id", r.trip[x.trip_id]), "stop_id", r.stop[x.stop_id])
FreqRow(r, x) == To(x, "trip_id", r.trip[x.trip_id])
RuleRow(r, z, x) == To(To(To(To(To(x, "fare_id", r.fare[x.fare_id]), "route_id", Ref(r, "route", C(x, "route_id"))),
  "origin_id", Zone(z, C(x, "origin_id"))), "destination_id", Zone(z, C(x, "destination_id"))), "contains_id", Zone(z, C(x, "contains_id")))
TransferRow(r, x) == To(To(x, "from_stop_id", Ref(r, "stop", C(x, "from_stop_id"))), "to_stop_id", Ref(r, "stop", C(x, "to_stop_id")))
Carried(X, r, z, f) ==
  LET R == X.tab[f] IN
  CASE f = "agency.txt" -> {AgencyRow(X, r, x) : x \in R} [] f = "stops.txt" -> {StopRow(X, r, z, x) : x \in R} [] f = "routes.txt" -> {RouteRow(X, r, x) : x \in R}
    [] f = "fare_attributes.txt" -> {FareRow(r, x) : x \in R} [] f = "shapes.txt" -> {ShapeRow(r, x) : x \in R}
    [] f \in {"calendar.txt", "calendar_dates.txt"} -> {ServiceRow(r, x) : x \in R} [] f = "trips.txt" -> {TripRow(r, x) : x \in R}
    [] f = "stop_times.txt" -> {TimeRow(r, x) : x \in R} [] f = "frequencies.txt" -> {FreqRow(r, x) : x \in R}
    [] f = "fare_rules.txt" -> {RuleRow(r, z, x) : x \in R} [] f = "transfers.txt" -> {TransferRow(r, x) : x \in R} [] OTHER -> {}
\* which mergers fill a table
Needs(f) == CASE f \in {"trips.txt", "stop_times.txt", "frequencies.txt"} -> "trip" [] f = "agency.txt" -> "agency" [] f = "stops.txt" -> "stop" [] f = "routes.txt" -> "route"
  [] f \in {"calendar.txt", "calendar_dates.txt"} -> "service" [] f = "fare_attributes.txt" -> "fare" [] f = "fare_rules.txt" -> "rule" [] f = "shapes.txt" -> "shape"
  [] f = "transfers.txt" -> "transfer" [] OTHER -> "none"
KindOfFile(f) == Needs(f)
Owner(f, x) == CASE f \in {"agency.txt", "stops.txt", "routes.txt", "fare_attributes.txt", "shapes.txt", "trips.txt"} -> C(x, IdOf(Needs(f))) [] OTHER -> ""
Entity(f) == f \in {"agency.txt", "stops.txt", "routes.txt", "fare_attributes.txt", "shapes.txt", "trips.txt"}
\* rows of the entities that were not unified, of either feed
Lone(A, B, m, f) ==
  LET met == {m.a[Needs(f)][i] : i \in Met(m, Needs(f))} IN
  {x \in Carried(A, m.a, m.za, f) \cup Carried(B, m.b, m.zb, f) : Owner(f, x) \notin met}
\* transfers of the new feed take the place of those of the old one
Pair(x) == <<C(x, "from_stop_id"), C(x, "to_stop_id")>>
Transfers(A, B, m) == LET b == Carried(B, m.b, m.zb, "transfers.txt")  a == Carried(A, m.a, m.za, "transfers.txt") IN
  b \cup {x \in a : \A y \in b : Pair(x) # Pair(y)}
Expected(A, B, m, f) == IF f = "transfers.txt" THEN Transfers(A, B, m) ELSE Carried(A, m.a, m.za, f) \cup Carried(B, m.b, m.zb, f)
NoBlock(f, x) == IF f = "trips.txt" THEN To(x, "block_id", "") ELSE x
\* rows of M as far as they are carried over unchanged (f an entity table: the lone ones)
Same1(A, B, M, m, f) ==
  IF Entity(f)
  THEN LET met == {m.a[Needs(f)][i] : i \in Met(m, Needs(f))} IN
       {NoBlock(f, x) : x \in {x \in M.tab[f] : Owner(f, x) \notin met}} = Lone(A, B, m, f)
  ELSE M.tab[f] = Expected(A, B, m, f)
\* trips share a block in M exactly if they did in one feed
Blocks(A, B, M, m) ==
  LET Bl(t) == C(RowOf(M, "trip", t), "block_id")
      P == {<<1, C(x, "block_id"), m.a.trip[x.trip_id]>> : x \in A.tab["trips.txt"]} \cup {<<2, C(x, "block_id"), m.b.trip[x.trip_id]>> : x \in B.tab["trips.txt"]} IN
  \A p, q \in P : IF p[2] = "" \/ q[2] = "" THEN (Bl(p[3]) = "" <=> p[2] = "") /\ (Bl(q[3]) = "" <=> q[2] = "")
                  ELSE (Bl(p[3]) = Bl(q[3])) <=> (p[1] = q[1] /\ p[2] = q[2])
\* unified entities: the values of the new feed, routes completed from the old one
First(a, b) == IF a # "" THEN a ELSE b
MetRows(A, B, m, k) ==
  LET f == FileOf(k) IN
  {LET r == RowOf(A, k, i)  y == CHOOSE y \in Carried(B, m.b, m.zb, f) : C(y, IdOf(k)) = m.b[k][i] IN
   IF k # "route" THEN y
   ELSE To(To(To(y, "route_url", First(C(y, "route_url"), C(r, "route_url"))), "route_color", First(C(y, "route_color"), C(r, "route_color"))),
           "route_text_color", First(C(y, "route_text_color"), C(r, "route_text_color"))) : i \in Met(m, k)}
MetValues(A, B, M, m, k) == LET f == FileOf(k)  met == {m.a[k][i] : i \in Met(m, k)} IN
  IF k = "shape" THEN {x \in M.tab[f] : x.shape_id \in met} = {x \in Carried(B, m.b, m.zb, f) : x.shape_id \in met}
  ELSE {x \in M.tab[f] : C(x, IdOf(k)) \in met} = MetRows(A, B, m, k)

\* --------------------------------------------------------- reports, counts
Conflicts(A, B, u, k) == Common(A, B, k) \ u[k]
Counts(A, B, u, k) == <<Cardinality(u[k]), Cardinality(A.ids[k] \ u[k]), Cardinality(B.ids[k] \ u[k])>>

\* -------------------------------------------------------------- calendars
RangesMeet(a, b) == LET p == Cal!DateRange(a)  q == Cal!DateRange(b) IN p[1] # -1 /\ q[1] # -1 /\ p[1] <= q[2] /\ q[1] <= p[2]
Overlap(A, B) == \E i \in DOMAIN A.cal, j \in DOMAIN B.cal : RangesMeet(A.cal[i], B.cal[j])
Days1(c) == Cal!ActiveDays(c)
Before(c, cut) == IF cut < 0 THEN Days1(c) ELSE {d \in Days1(c) : d < cut}
From(c, cut) == IF cut < 0 THEN Days1(c) ELSE {d \in Days1(c) : d >= cut}
\* a calendar the cut does not touch: all it speaks about is on its side
Dates(c) == ({c.start, c.end} \ {-1}) \cup DOMAIN c.exc
WhollyBefore(c, cut) == cut < 0 \/ \A d \in Dates(c) : d < cut
WhollyFrom(c, cut) == cut < 0 \/ \A d \in Dates(c) : d >= cut
=============================================================================
