------------------------------- MODULE Store -------------------------------
(* A schedule as tables of rows, edited, written as a feed and loaded again. *)
(* A row is [c |-> cells (column -> canonical text, blank and default cells  *)
(* left out), n |-> place]: n orders the points of a shape, 0 elsewhere.     *)
(* The state is [tab |-> file -> set of rows, feed |-> the tables last       *)
(* written and not changed since, or NoFeed, raw |-> whether some value may   *)
(* still be in another form than the written one, errs |-> the errors the    *)
(* first loading reported].                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
Files == {"agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt", "calendar.txt", "calendar_dates.txt", "fare_attributes.txt",
          "fare_rules.txt", "frequencies.txt", "transfers.txt", "shapes.txt", "feed_info.txt"}
Days == {"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"}
\* columns whose values are numbers (or times): 1 and 1.0, 5:00:00 and 05:00:00 are the same
Numbers == {"stop_lat", "stop_lon", "location_type", "wheelchair_boarding", "route_type", "bikes_allowed", "direction_id", "wheelchair_accessible", "price", "payment_method",
            "transfers", "transfer_duration", "transfer_type", "min_transfer_time", "start_time", "end_time", "headway_secs", "exact_times", "arrival_time", "departure_time",
            "stop_sequence", "pickup_type", "drop_off_type", "shape_dist_traveled", "timepoint", "shape_pt_lat", "shape_pt_lon", "exception_type"} \cup Days
\* a blank here means zero
ZeroIfBlank == {<<"stops.txt", "location_type">>, <<"transfers.txt", "transfer_type">>, <<"frequencies.txt", "exact_times">>} \cup ({"calendar.txt"} \X Days)
Required == [ x \in {"agency.txt"} |-> {"agency_name", "agency_url", "agency_timezone"} ]
  @@ "stops.txt" :> {"stop_id", "stop_name", "stop_lat", "stop_lon"}
  @@ "routes.txt" :> {"route_id", "route_type"}
  @@ "trips.txt" :> {"route_id", "service_id", "trip_id"}
  @@ "stop_times.txt" :> {"trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence"}
  @@ "calendar.txt" :> {"service_id", "start_date", "end_date"} \cup Days
  @@ "calendar_dates.txt" :> {"service_id", "date", "exception_type"}
  @@ "fare_attributes.txt" :> {"fare_id", "price", "currency_type", "payment_method", "transfers"}
  @@ "fare_rules.txt" :> {"fare_id"}
  @@ "frequencies.txt" :> {"trip_id", "start_time", "end_time", "headway_secs"}
  @@ "transfers.txt" :> {"from_stop_id", "to_stop_id", "transfer_type"}
  @@ "shapes.txt" :> {"shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"}
  @@ "feed_info.txt" :> {"feed_publisher_name", "feed_publisher_url", "feed_lang"}
Order == <<"calendar.txt", "calendar_dates.txt", "shapes.txt", "agency.txt", "stops.txt", "routes.txt", "transfers.txt", "trips.txt",
           "fare_attributes.txt", "fare_rules.txt", "frequencies.txt", "feed_info.txt", "stop_times.txt">>
OwnId(f) == CASE f = "agency.txt" -> "agency_id" [] f = "stops.txt" -> "stop_id" [] f = "routes.txt" -> "route_id" [] f = "trips.txt" -> "trip_id"
  [] f = "calendar.txt" -> "service_id" [] f = "fare_attributes.txt" -> "fare_id" [] OTHER -> ""

\* v = [t |-> text, h |-> exact number or ""]
Canon(c, v) == IF c \in Numbers /\ v.h # "" THEN "#" \o v.h ELSE v.t
Zero(v) == v.h = "0x0.0p+0"
BlankCell(f, c, v) == v.t = "" \/ (Zero(v) /\ <<f, c>> \in ZeroIfBlank)
Cells(f, r) == [c \in {c \in DOMAIN r : c # "shape_pt_sequence" /\ ~BlankCell(f, c, r[c])} |-> Canon(c, r[c])]
Row(f, r) == [c |-> Cells(f, r), n |-> IF "shape_pt_sequence" \in DOMAIN r THEN r["shape_pt_sequence"].n ELSE 0]
\* only the order of the numbers of a shape's points counts
Placed(R) == {[x EXCEPT !.n = Cardinality({y \in R : y.c["shape_id"] = x.c["shape_id"] /\ y.n < x.n})] : x \in R}
Same(f, A, B) == IF f = "shapes.txt" THEN Placed(A) = Placed(B) ELSE A = B

NoFeed == [none |-> TRUE]
Empty == [tab |-> [f \in Files |-> {}], feed |-> NoFeed, raw |-> TRUE, errs |-> {}]
\* after loading, values are held in their own types
Reloaded(s, errs) == [s EXCEPT !.feed = IF s.raw THEN NoFeed ELSE @, !.raw = FALSE, !.errs = @ \cup errs]
Of(q, f) == SelectSeq(q, LAMBDA x : x.f = f)
Loaded(rows, errs) == [tab |-> [f \in Files |-> {Row(f, x.r) : x \in ToSet(Of(rows, f))}], feed |-> NoFeed, raw |-> FALSE, errs |-> errs]
Add(s, f, r) == [s EXCEPT !.tab[f] = @ \cup {Row(f, r)}, !.feed = NoFeed, !.raw = TRUE]
\* the column of one row is given another value
Has(x, f, key) == OwnId(f) = "" \/ (OwnId(f) \in DOMAIN x.c /\ x.c[OwnId(f)] = key)
Put(x, f, c, v) == IF BlankCell(f, c, v) THEN [x EXCEPT !.c = [k \in DOMAIN @ \ {c} |-> @[k]]]
                   ELSE [x EXCEPT !.c = (c :> Canon(c, v)) @@ @]
Set(s, f, key, c, v) == [s EXCEPT !.tab[f] = {IF Has(x, f, key) THEN Put(x, f, c, v) ELSE x : x \in @}, !.feed = NoFeed, !.raw = TRUE]

\* ---- the feed written, tables t : file -> [head, rows (sequences of [t, h, n])]
TableRow(f, t, i) == Row(f, [c \in ToSet(t.head) |-> t.rows[i][CHOOSE k \in DOMAIN t.head : t.head[k] = c]])
TableRows(f, t) == {TableRow(f, t, i) : i \in DOMAIN t.rows}
Columns(f, R) == UNION {DOMAIN x.c : x \in R} \cup IF f = "shapes.txt" /\ R # {} THEN {"shape_pt_sequence"} ELSE {}
GoodTable(f, t, R) ==
  /\ IsInjective(t.head) /\ Required[f] \subseteq ToSet(t.head) /\ Columns(f, R) \subseteq ToSet(t.head)
  /\ \A i \in DOMAIN t.rows : Len(t.rows[i]) = Len(t.head)
Represented(f, t, R) == Len(t.rows) = Cardinality(R) /\ Same(f, TableRows(f, t), R)
\* the texts of a table, whatever the order of its rows and columns
Texts(t) == {[c \in ToSet(t.head) |-> t.rows[i][CHOOSE k \in DOMAIN t.head : t.head[k] = c].t] : i \in DOMAIN t.rows}
AllTexts(T) == [f \in {f \in DOMAIN T : T[f].rows # <<>>} |-> Texts(T[f])]
=============================================================================
