-------------------------------- MODULE Feed --------------------------------
(* Loading a feed row by row.  A row is [f |-> file, n |-> number in the file, *)
(* r |-> cells (column -> text, absent columns are not in its domain),         *)
(* cnt |-> "ok" | "many" | "few"].  The state holds what the schedule holds    *)
(* after the rows so far; Must/May say which faults of a row are reported      *)
(* (with file, line, column and value), Kept whether the row is represented.   *)
(* lex gives the lexical facts about each text (decided by Values.tla):        *)
(*  f/m number and its thousandths, n non-negative integer, i/v integer,       *)
(*  s seconds of a time (-1: none), d date, url tz lang mail cur, rgb, low.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

T(r, c) == IF c \in DOMAIN r THEN r[c] ELSE ""
Blank(r, c) == T(r, c) = ""
Absent == "<absent>"
\* an id under which a row is filed: a blank one is not the same as none
Key(r, c) == IF c \in DOMAIN r THEN r[c] ELSE Absent
On(b, S) == IF b THEN S ELSE {}

Required == [ x \in {"agency.txt"} |-> {"agency_name", "agency_url", "agency_timezone"} ]
  @@ "stops.txt" :> {"stop_id", "stop_name", "stop_lat", "stop_lon"}
  @@ "routes.txt" :> {"route_id", "route_short_name", "route_long_name", "route_type"}
  @@ "trips.txt" :> {"route_id", "service_id", "trip_id"}
  @@ "stop_times.txt" :> {"trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"}
  @@ "calendar.txt" :> {"service_id", "start_date", "end_date", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"}
  @@ "calendar_dates.txt" :> {"service_id", "date", "exception_type"}
  @@ "fare_attributes.txt" :> {"fare_id", "price", "currency_type", "payment_method", "transfers"}
  @@ "fare_rules.txt" :> {"fare_id"}
  @@ "frequencies.txt" :> {"trip_id", "start_time", "end_time", "headway_secs"}
  @@ "transfers.txt" :> {"from_stop_id", "to_stop_id", "transfer_type"}
  @@ "shapes.txt" :> {"shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"}
  @@ "feed_info.txt" :> {"feed_publisher_name", "feed_publisher_url", "feed_lang"}
Optional == [ x \in {"agency.txt"} |-> {"agency_id", "agency_lang", "agency_phone", "agency_fare_url", "agency_email"} ]
  @@ "stops.txt" :> {"stop_desc", "zone_id", "stop_url", "stop_code", "location_type", "parent_station", "stop_timezone", "wheelchair_boarding"}
  @@ "routes.txt" :> {"agency_id", "route_desc", "route_url", "route_color", "route_text_color", "bikes_allowed"}
  @@ "trips.txt" :> {"trip_headsign", "trip_short_name", "direction_id", "block_id", "shape_id", "bikes_allowed", "wheelchair_accessible", "original_trip_id"}
  @@ "stop_times.txt" :> {"stop_headsign", "pickup_type", "drop_off_type", "shape_dist_traveled", "timepoint"}
  @@ "calendar.txt" :> {} @@ "calendar_dates.txt" :> {}
  @@ "fare_attributes.txt" :> {"transfer_duration"}
  @@ "fare_rules.txt" :> {"route_id", "origin_id", "destination_id", "contains_id"}
  @@ "frequencies.txt" :> {"exact_times"}
  @@ "transfers.txt" :> {"min_transfer_time"}
  @@ "shapes.txt" :> {"shape_dist_traveled"}
  @@ "feed_info.txt" :> {"feed_start_date", "feed_end_date", "feed_version"}
Deprecated == [ x \in DOMAIN Required |-> CASE x = "agency.txt" -> {"agency_ticket_url"}
                 [] x = "feed_info.txt" -> {"feed_valid_from", "feed_valid_until", "feed_timezone"}
                 [] OTHER -> {} ]
Files == DOMAIN Required
Known(f) == Required[f] \cup Optional[f] \cup Deprecated[f]
Obligatory == {"agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"}
\* tables whose unknown columns are kept as attributes of the entities
KeepsExtra == {"agency.txt", "stops.txt", "routes.txt", "trips.txt", "transfers.txt", "fare_attributes.txt", "fare_rules.txt", "feed_info.txt"}

\* ---- faults: kind k, level l, column c, values v that name the value at fault
F(k, l, c, v) == [k |-> k, l |-> l, c |-> c, v |-> v]
Missing(r, C) == {F("missing", "E", c, {""}) : c \in {c \in C : Blank(r, c)}}
Wrong(r, c) == F("invalid", "E", c, {T(r, c)})
Doubt(r, c) == F("invalid", "W", c, {T(r, c)})
Odd(r, c) == F("odd", "W", c, {T(r, c)})
Dup(r, c) == F("dup", "E", c, {T(r, c)})
BadIf(w, r, c, fact) == On(~Blank(r, c) /\ ~w.lex[T(r, c)][fact], {Wrong(r, c)})
YesNo(r, c) == On(T(r, c) \notin {"", "0", "1", "2"}, {Wrong(r, c)})
Abs(n) == IF n < 0 THEN 0 - n ELSE n

AgencyFaults(w, r) ==
  Missing(r, Required["agency.txt"]) \cup BadIf(w, r, "agency_url", "url") \cup BadIf(w, r, "agency_fare_url", "url")
  \cup BadIf(w, r, "agency_lang", "lang") \cup BadIf(w, r, "agency_timezone", "tz") \cup BadIf(w, r, "agency_email", "mail")
AgencyNew(w, r) == Key(r, "agency_id") \notin w.ids.agency

\* a number of the file: is it given, readable and in range
Num(w, r, c) == ~Blank(r, c) /\ w.lex[T(r, c)].f # "bad"
Mil(w, r, c) == w.lex[T(r, c)].m
Coord(w, r, c, top) ==
  On(~Blank(r, c) /\ w.lex[T(r, c)].f = "bad", {Wrong(r, c)})
  \cup On(~Blank(r, c) /\ w.lex[T(r, c)].f = "odd", {Odd(r, c)})
  \cup On(Num(w, r, c) /\ Abs(Mil(w, r, c)) > top, {Wrong(r, c)})
NearOrigin(w, r, a, b) == Num(w, r, a) /\ Num(w, r, b) /\ Abs(Mil(w, r, a)) < 1000 /\ Abs(Mil(w, r, b)) < 1000

StopFaults(w, r) ==
  Missing(r, Required["stops.txt"]) \cup Coord(w, r, "stop_lat", 90000) \cup Coord(w, r, "stop_lon", 180000)
  \cup On(NearOrigin(w, r, "stop_lat", "stop_lon"), {F("invalid", "W", "stop_lat", {T(r, "stop_lat")})})
  \cup BadIf(w, r, "stop_url", "url") \cup BadIf(w, r, "stop_timezone", "tz")
  \cup On(~Blank(r, "stop_timezone") /\ ~Blank(r, "parent_station"), {Doubt(r, "stop_timezone")})
  \cup On(~Blank(r, "location_type") /\ w.lex[T(r, "location_type")].i = "bad", {Wrong(r, "location_type")})
  \cup On(~Blank(r, "location_type") /\ w.lex[T(r, "location_type")].i = "ok" /\ w.lex[T(r, "location_type")].v \notin 0..4, {Doubt(r, "location_type")})
  \cup On(~Blank(r, "parent_station") /\ ~Blank(r, "location_type") /\ w.lex[T(r, "location_type")].i = "ok"
          /\ w.lex[T(r, "location_type")].v = 1, {Wrong(r, "parent_station")})
  \cup On(~Blank(r, "stop_desc") /\ ~Blank(r, "stop_name") /\ w.lex[T(r, "stop_desc")].low = w.lex[T(r, "stop_name")].low, {Doubt(r, "stop_desc")})
  \cup YesNo(r, "wheelchair_boarding")
StopNew(w, r) == T(r, "stop_id") \notin w.ids.stop

Lum(c) == 299 * c[1] + 587 * c[2] + 114 * c[3]
Colour(w, r, c, default) == IF ~Blank(r, c) /\ w.lex[T(r, c)].rgb # <<>> THEN w.lex[T(r, c)].rgb ELSE default
Contrast(w, r) == Abs(Lum(Colour(w, r, "route_color", <<255, 255, 255>>)) - Lum(Colour(w, r, "route_text_color", <<0, 0, 0>>)))
Low(w, r, c) == w.lex[T(r, c)].low
RouteFaults(w, r) ==
  Missing(r, {"route_id", "route_type"})
  \cup On(Blank(r, "route_short_name") /\ Blank(r, "route_long_name"), {F("missing", "E", "route_short_name", {""})})
  \cup On(Len(Low(w, r, "route_short_name")) > 6, {Doubt(r, "route_short_name")})
  \cup On(/\ ~Blank(r, "route_short_name") /\ ~Blank(r, "route_long_name")
          /\ \/ Low(w, r, "route_short_name") = Low(w, r, "route_long_name")
             \/ \E x \in {32, 40, 45} : IsPrefix(Low(w, r, "route_short_name") \o <<x>>, Low(w, r, "route_long_name")),
          {Doubt(r, "route_long_name")})
  \cup On(~Blank(r, "route_desc") /\ T(r, "route_desc") \in {T(r, "route_short_name"), T(r, "route_long_name")}, {Wrong(r, "route_desc")})
  \cup On(~Blank(r, "route_type") /\ w.lex[T(r, "route_type")].n = "bad", {Wrong(r, "route_type")})
  \cup On(~Blank(r, "route_type") /\ w.lex[T(r, "route_type")].n = "odd", {Odd(r, "route_type")})
  \cup On(~Blank(r, "route_type") /\ w.lex[T(r, "route_type")].n # "bad" /\ w.lex[T(r, "route_type")].v \notin 0..7, {Doubt(r, "route_type")})
  \cup BadIf(w, r, "route_url", "url")
  \cup {Wrong(r, c) : c \in {c \in {"route_color", "route_text_color"} : ~Blank(r, c) /\ w.lex[T(r, c)].rgb = <<>>}}
  \cup On(7 * Contrast(w, r) < 510 * 1000, {F("invalid", "W", "route_color", {T(r, "route_color"), ""})})
  \cup YesNo(r, "bikes_allowed")
RouteNew(w, r) == Key(r, "route_id") \notin w.ids.route
RouteAgency(w, r) == Key(r, "agency_id") \in w.ids.agency \/ (Blank(r, "agency_id") /\ Cardinality(w.ids.agency) = 1)

TripFaults(w, r) ==
  Missing(r, Required["trips.txt"]) \cup On(T(r, "direction_id") \notin {"", "0", "1"}, {Wrong(r, "direction_id")})
  \cup YesNo(r, "bikes_allowed") \cup YesNo(r, "wheelchair_accessible")
Dangling(r, c, ids) == On(~Blank(r, c) /\ T(r, c) \notin ids, {Wrong(r, c)})
TripRefs(w, r) == Dangling(r, "shape_id", w.ids.shape) \cup Dangling(r, "route_id", w.ids.route) \cup Dangling(r, "service_id", w.ids.service)
TripNew(w, r) == Key(r, "trip_id") \notin w.ids.trip

FareFaults(w, r) ==
  Missing(r, {"fare_id", "price", "currency_type", "payment_method"})
  \cup On(~Blank(r, "price") /\ (w.lex[T(r, "price")].f = "bad" \/ w.lex[T(r, "price")].m < 0), {Wrong(r, "price")})
  \cup BadIf(w, r, "currency_type", "cur")
  \cup On(~Blank(r, "payment_method") /\ (w.lex[T(r, "payment_method")].i = "bad" \/ w.lex[T(r, "payment_method")].v \notin 0..1), {Wrong(r, "payment_method")})
  \cup On(~Blank(r, "transfers") /\ (w.lex[T(r, "transfers")].i = "bad" \/ w.lex[T(r, "transfers")].v \notin 0..2), {Wrong(r, "transfers")})
  \cup On(~Blank(r, "transfer_duration") /\ (w.lex[T(r, "transfer_duration")].i = "bad" \/ w.lex[T(r, "transfer_duration")].v < 0), {Wrong(r, "transfer_duration")})
FareNew(w, r) == Key(r, "fare_id") \notin w.ids.fare
RuleFaults(w, r) ==
  IF Blank(r, "fare_id") THEN Missing(r, {"fare_id"})
  ELSE Dangling(r, "route_id", w.ids.route) \cup Dangling(r, "fare_id", w.ids.fare)
       \cup UNION {Dangling(r, c, w.ids.zone) : c \in {"origin_id", "destination_id", "contains_id"}}

TransferBlocked(w, r) ==
  Missing(r, {"from_stop_id", "to_stop_id"})
  \cup On(~Blank(r, "transfer_type") /\ (w.lex[T(r, "transfer_type")].n = "bad" \/ w.lex[T(r, "transfer_type")].v \notin 0..3), {Wrong(r, "transfer_type")})
  \cup On(~Blank(r, "min_transfer_time") /\ w.lex[T(r, "min_transfer_time")].n = "bad", {Wrong(r, "min_transfer_time")})
TransferFaults(w, r) ==
  LET t == T(r, "min_transfer_time") IN
  On(t # "" /\ T(r, "transfer_type") \notin {"2", "+2", "02"}, {F("mintype", "E", "", {""})})
  \cup On(t # "" /\ w.lex[t].n # "bad" /\ w.lex[t].v >= 86400, {Wrong(r, "min_transfer_time")})
  \cup On(t # "" /\ w.lex[t].n # "bad" /\ w.lex[t].v \in 10800..86399, {Doubt(r, "min_transfer_time")})
TransferRefs(w, r) == UNION {Dangling(r, c, w.ids.stop) : c \in {"from_stop_id", "to_stop_id"}}
TransferTwice(w, r) == On(<<T(r, "from_stop_id"), T(r, "to_stop_id")>> \in w.ids.transfer,
  {F("dup", "W", "(from_stop_id, to_stop_id)", {"(" \o T(r, "from_stop_id") \o ", " \o T(r, "to_stop_id") \o ")"})})
Distance == UNION {{F("distance", l, "", {""})} : l \in {"E", "W"}}

TimeFault(w, r, c) == On(~Blank(r, c) /\ w.lex[T(r, c)].s < 0, {Wrong(r, c)})
FreqStop(w, r) ==   \* faults that keep the row out
  Dangling(r, "trip_id", w.ids.trip) \cup On(Blank(r, "trip_id") /\ Key(r, "trip_id") \notin w.ids.trip, {F("missing", "E", "trip_id", {""})})
  \cup Missing(r, {"start_time", "end_time", "headway_secs"})
  \cup TimeFault(w, r, "start_time") \cup TimeFault(w, r, "end_time")
  \cup On(~Blank(r, "headway_secs") /\ (w.lex[T(r, "headway_secs")].i = "bad" \/ w.lex[T(r, "headway_secs")].v <= 0), {Wrong(r, "headway_secs")})
FreqFaults(w, r) ==
  On(~Blank(r, "exact_times") /\ (w.lex[T(r, "exact_times")].i = "bad" \/ w.lex[T(r, "exact_times")].v \notin 0..1), {Wrong(r, "exact_times")})
FreqOrder(w, r) == LET a == w.lex[T(r, "start_time")].s  b == w.lex[T(r, "end_time")].s IN
  On(a >= 0 /\ b >= 0 /\ b <= a, {Wrong(r, "end_time")})

InfoFaults(w, r) ==
  LET a == w.lex[T(r, "feed_start_date")]  b == w.lex[T(r, "feed_end_date")]  bad(x) == ~Blank(r, x) /\ w.lex[T(r, x)].d = "bad" IN
  Missing(r, Required["feed_info.txt"]) \cup BadIf(w, r, "feed_lang", "lang") \cup BadIf(w, r, "feed_publisher_url", "url")
  \cup {Wrong(r, c) : c \in {c \in {"feed_start_date", "feed_end_date"} : bad(c)}}
  \cup On(~Blank(r, "feed_start_date") /\ ~Blank(r, "feed_end_date") /\ a.d # "bad" /\ b.d # "bad" /\ b.dn < a.dn, {Wrong(r, "feed_end_date")})

\* shape points and stop times: faults that keep the row out, and the others
PointStop(w, r) ==
  Missing(r, {"shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"})
  \cup On(~Blank(r, "shape_pt_sequence") /\ w.lex[T(r, "shape_pt_sequence")].n = "bad", {Wrong(r, "shape_pt_sequence")})
  \cup {Wrong(r, c) : c \in {c \in {"shape_pt_lat", "shape_pt_lon"} :
          ~Blank(r, c) /\ (w.lex[T(r, c)].f = "bad" \/ Abs(Mil(w, r, c)) > (IF c = "shape_pt_lat" THEN 90000 ELSE 180000))}}
  \cup On(NearOrigin(w, r, "shape_pt_lat", "shape_pt_lon"), {Doubt(r, "shape_pt_lat")})
  \cup On(~Blank(r, "shape_dist_traveled") /\ (w.lex[T(r, "shape_dist_traveled")].f = "bad" \/ Mil(w, r, "shape_dist_traveled") < 0), {Wrong(r, "shape_dist_traveled")})
PointOdd(w, r) == {Odd(r, c) : c \in {c \in {"shape_pt_lat", "shape_pt_lon", "shape_dist_traveled"} : ~Blank(r, c) /\ w.lex[T(r, c)].f = "odd"}}
  \cup On(~Blank(r, "shape_pt_sequence") /\ w.lex[T(r, "shape_pt_sequence")].n = "odd", {Odd(r, "shape_pt_sequence")})
PointSeq(w, r) == <<T(r, "shape_id"), w.lex[T(r, "shape_pt_sequence")].v>>
PointTwice(w, r) == On(PointStop(w, r) = {} /\ PointSeq(w, r) \in w.ids.point, {Wrong(r, "shape_pt_sequence")})

TimeStop(w, r) ==
  Missing(r, {"stop_sequence"}) \cup On(~Blank(r, "stop_sequence") /\ w.lex[T(r, "stop_sequence")].i = "bad", {Wrong(r, "stop_sequence")})
  \cup On(T(r, "stop_id") \notin w.ids.stop, {Wrong(r, "stop_id")}) \cup On(Key(r, "trip_id") \notin w.ids.trip, {Wrong(r, "trip_id")})
Coded(w, r, c, top) ==
  On(~Blank(r, c) /\ w.lex[T(r, c)].i = "bad", {Wrong(r, c)})
  \cup On(~Blank(r, c) /\ w.lex[T(r, c)].i = "ok" /\ w.lex[T(r, c)].v \notin 0..top, {Doubt(r, c)})
Code(w, r, c) == IF Blank(r, c) \/ w.lex[T(r, c)].i = "bad" THEN -1 ELSE w.lex[T(r, c)].v
TimeFaults(w, r) ==
  LET a == w.lex[T(r, "arrival_time")].s  b == w.lex[T(r, "departure_time")].s IN
  TimeFault(w, r, "arrival_time") \cup TimeFault(w, r, "departure_time")
  \cup On(a >= 0 /\ b >= 0 /\ b < a, {Wrong(r, "departure_time")})
  \cup On(a >= 0 /\ Blank(r, "departure_time"), Missing(r, {"departure_time"}))
  \cup On(b >= 0 /\ Blank(r, "arrival_time"), Missing(r, {"arrival_time"}))
  \cup Coded(w, r, "pickup_type", 3) \cup Coded(w, r, "drop_off_type", 3) \cup Coded(w, r, "timepoint", 1)
  \cup On(Code(w, r, "pickup_type") = 1 /\ Code(w, r, "drop_off_type") = 1 /\ a < 0 /\ b < 0, {F("other", "W", "", {""})})
  \cup On(~Blank(r, "shape_dist_traveled") /\ (w.lex[T(r, "shape_dist_traveled")].f = "bad" \/ Mil(w, r, "shape_dist_traveled") < 0), {Wrong(r, "shape_dist_traveled")})
  \cup On(~Blank(r, "shape_dist_traveled") /\ w.lex[T(r, "shape_dist_traveled")].f = "odd", {Odd(r, "shape_dist_traveled")})
  \cup On(w.lex[T(r, "stop_sequence")].v < 0, {Wrong(r, "stop_sequence")})

\* calendars: a row of calendar.txt is judged together with the exceptions of its service
DayCols == {"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"}
RowsOf(w, f) == {x \in w.feed : x.f = f}
Counts(x) == T(x.r, "exception_type") \in {"1", "2"}
LastFor(w, x) == Counts(x) /\ \A y \in RowsOf(w, "calendar_dates.txt") :
   (Counts(y) /\ T(y.r, "service_id") = T(x.r, "service_id") /\ T(y.r, "date") = T(x.r, "date")) => y.n <= x.n
\* of several exceptions for one date the last counts, and each later one is reported
Superseded(w, x) == x.f = "calendar_dates.txt" /\ Counts(x) /\ ~LastFor(w, x)
AddsService(w, sid) == \E x \in RowsOf(w, "calendar_dates.txt") : T(x.r, "service_id") = sid /\ LastFor(w, x) /\ T(x.r, "exception_type") = "1"
DateFaults(w, r, c) ==
  On(c \in DOMAIN r /\ Blank(r, c), Missing(r, {c}))
  \cup On(~Blank(r, c) /\ w.lex[T(r, c)].d = "bad", {Wrong(r, c)})
  \cup On(~Blank(r, c) /\ w.lex[T(r, c)].d = "out", {F("date", "E", c, {T(r, c)})})
Idle == F("other", "W", "", {""})
CalendarFaults(w, r) ==
  LET a == w.lex[T(r, "start_date")]  b == w.lex[T(r, "end_date")] IN
  Missing(r, {"service_id"}) \cup DateFaults(w, r, "start_date") \cup DateFaults(w, r, "end_date")
  \cup On(~Blank(r, "start_date") /\ ~Blank(r, "end_date") /\ a.d = "ok" /\ b.d = "ok" /\ b.dn < a.dn, {Wrong(r, "end_date")})
  \cup Missing(r, DayCols) \cup {Wrong(r, c) : c \in {c \in DayCols : T(r, c) \notin {"", "0", "1"}}}
  \cup On((\A c \in DayCols : T(r, c) # "1") /\ ~AddsService(w, T(r, "service_id")), {Idle})
CalendarNew(w, r) == Key(r, "service_id") \notin w.ids.service
ExceptionFaults(w, x) ==
  On(~Counts(x), {Wrong(x.r, "exception_type")})
  \cup On(Counts(x) /\ <<T(x.r, "service_id"), T(x.r, "date")>> \in w.ids.exception,
          {F("dup", "W", "(service_id, date)", {"(" \o T(x.r, "service_id") \o ", " \o T(x.r, "date") \o ")"})})
  \cup On(LastFor(w, x), DateFaults(w, x.r, "date"))
  \* a service known from its exceptions only is judged at its first row
  \cup On(Key(x.r, "service_id") \notin w.ids.service,
          Missing(x.r, {"service_id"}) \cup On(~AddsService(w, T(x.r, "service_id")), {Idle}))

\* ---- what a row must be, and may be, reported for
CellFaults(x) == On(x.cnt # "ok", {F("cells", "W", "", {""})})
Must(w, x) == LET r == x.r IN CellFaults(x) \cup
  (CASE x.f = "agency.txt" -> AgencyFaults(w, r) \cup On(~AgencyNew(w, r), {Dup(r, "agency_id")})
     [] x.f = "stops.txt" -> StopFaults(w, r) \cup On(~StopNew(w, r) /\ ~Blank(r, "stop_id"), {Dup(r, "stop_id")})
     [] x.f = "routes.txt" -> RouteFaults(w, r) \cup On(~RouteNew(w, r), {Dup(r, "route_id")}) \cup On(RouteNew(w, r) /\ ~RouteAgency(w, r), {Wrong(r, "agency_id")})
     [] x.f = "trips.txt" -> TripFaults(w, r) \cup On(~TripNew(w, r), {Dup(r, "trip_id")}) \cup On(TripNew(w, r), TripRefs(w, r))
     [] x.f = "fare_attributes.txt" -> FareFaults(w, r) \cup On(~FareNew(w, r), {Dup(r, "fare_id")})
     [] x.f = "fare_rules.txt" -> RuleFaults(w, r)
     [] x.f = "transfers.txt" -> TransferBlocked(w, r) \cup TransferFaults(w, r) \cup On(TransferBlocked(w, r) = {}, TransferRefs(w, r) \cup TransferTwice(w, r))
     [] x.f = "feed_info.txt" -> InfoFaults(w, r) \cup On(w.ids.info # {}, {F("other", "W", "", {""})})
     [] x.f = "calendar.txt" -> IF CalendarNew(w, r) THEN CalendarFaults(w, r) ELSE {Dup(r, "service_id")}
     [] x.f = "calendar_dates.txt" -> ExceptionFaults(w, x)
     [] x.f = "frequencies.txt" -> IF FreqStop(w, r) = {} THEN FreqFaults(w, r) \cup FreqOrder(w, r) ELSE {}
     [] x.f = "shapes.txt" -> IF PointStop(w, r) = {} THEN PointOdd(w, r) \cup PointTwice(w, r) ELSE {}
     [] x.f = "stop_times.txt" -> IF TimeStop(w, r) = {} THEN TimeFaults(w, r) ELSE {})
\* tables of which a row that cannot be used may be reported for one reason only
OneOf(w, x) == CASE x.f = "frequencies.txt" -> FreqStop(w, x.r)
                 [] x.f = "shapes.txt" -> PointStop(w, x.r)
                 [] x.f = "stop_times.txt" -> TimeStop(w, x.r)
                 [] OTHER -> {}
May(w, x) == LET r == x.r IN Must(w, x) \cup OneOf(w, x) \cup
  (CASE x.f = "trips.txt" -> TripRefs(w, r)
     [] x.f = "routes.txt" -> On(~RouteAgency(w, r), {Wrong(r, "agency_id")})
     [] x.f = "transfers.txt" -> TransferRefs(w, r) \cup TransferTwice(w, r) \cup Distance
     [] x.f = "frequencies.txt" -> FreqFaults(w, r) \cup FreqOrder(w, r)
     [] x.f = "shapes.txt" -> PointOdd(w, r) \cup PointTwice(w, r) \cup On(~Blank(r, "shape_dist_traveled"), {Wrong(r, "shape_dist_traveled")})
     [] x.f = "stop_times.txt" -> TimeFaults(w, r)
     [] x.f = "calendar.txt" -> CalendarFaults(w, r)
     [] OTHER -> {})
\* columns of a kept row whose value was reported and need not be taken over
Excused(w, x) == {f.c : f \in May(w, x)}

Kept(w, x) == LET r == x.r IN
  CASE x.f = "agency.txt" -> AgencyNew(w, r)
    [] x.f = "stops.txt" -> StopNew(w, r) /\ ~Blank(r, "stop_id")
    [] x.f = "routes.txt" -> RouteNew(w, r) /\ RouteAgency(w, r)
    [] x.f = "trips.txt" -> TripNew(w, r)
    [] x.f = "fare_attributes.txt" -> FareNew(w, r)
    [] x.f = "fare_rules.txt" -> T(r, "fare_id") \in w.ids.fare /\ ~Blank(r, "fare_id")
    [] x.f = "transfers.txt" -> TransferBlocked(w, r) = {}
    [] x.f = "feed_info.txt" -> w.ids.info = {}
    [] x.f = "calendar.txt" -> CalendarNew(w, r)
    [] x.f = "calendar_dates.txt" -> LastFor(w, x)
    [] OTHER -> OneOf(w, x) = {}

None == [k \in {"agency", "stop", "route", "trip", "fare", "shape", "service", "zone", "transfer", "point", "exception", "info"} |-> {}]
Empty(lex, feed) == [lex |-> lex, feed |-> feed, ids |-> None, kept |-> <<>>]
With(w, k, i) == [w EXCEPT !.ids[k] = @ \cup {i}]
Load(w, x) ==
  LET r == x.r
      k == IF Kept(w, x) THEN [w EXCEPT !.kept = Append(@, [f |-> x.f, n |-> x.n, r |-> r, free |-> Excused(w, x)])] ELSE w
  IN CASE x.f = "agency.txt" -> With(k, "agency", Key(r, "agency_id"))
       [] x.f = "stops.txt" -> IF ~Kept(w, x) THEN k ELSE LET s == With(k, "stop", T(r, "stop_id")) IN
                               IF Blank(r, "zone_id") THEN s ELSE With(s, "zone", T(r, "zone_id"))
       [] x.f = "routes.txt" -> IF Kept(w, x) THEN With(k, "route", Key(r, "route_id")) ELSE k
       [] x.f = "trips.txt" -> With(k, "trip", Key(r, "trip_id"))
       [] x.f = "fare_attributes.txt" -> With(k, "fare", Key(r, "fare_id"))
       [] x.f = "shapes.txt" -> IF Kept(w, x) THEN With(With(k, "shape", T(r, "shape_id")), "point", PointSeq(w, r)) ELSE k
       [] x.f = "calendar.txt" -> With(k, "service", Key(r, "service_id"))
       [] x.f = "calendar_dates.txt" ->
            LET s == With(k, "service", Key(r, "service_id")) IN
            IF Counts(x) THEN With(s, "exception", <<T(r, "service_id"), T(r, "date")>>) ELSE s
       [] x.f = "transfers.txt" -> IF Kept(w, x) THEN With(k, "transfer", <<T(r, "from_stop_id"), T(r, "to_stop_id")>>) ELSE k
       [] x.f = "feed_info.txt" -> With(k, "info", 1)
       [] OTHER -> k

Order == <<"calendar.txt", "calendar_dates.txt", "shapes.txt", "agency.txt", "stops.txt", "routes.txt", "transfers.txt", "trips.txt",
           "fare_attributes.txt", "fare_rules.txt", "frequencies.txt", "feed_info.txt", "stop_times.txt">>
=============================================================================
