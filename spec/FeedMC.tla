------------------------------- MODULE FeedMC -------------------------------
(* All feeds of a few rows over a small vocabulary with sound, defective,    *)
(* repeated and dangling rows; Gen prints larger ones for replay.            *)
EXTENDS Feed, Json
CONSTANTS Depth, Pool
VARIABLE rows      \* the rows of the feed so far, in loading order

Base == [f |-> "bad", m |-> 0, n |-> "bad", i |-> "bad", v |-> 0, s |-> -1, d |-> "bad", dn |-> 0, url |-> FALSE, tz |-> FALSE, lang |-> FALSE,
         mail |-> FALSE, cur |-> FALSE, rgb |-> <<>>, low |-> <<0>>]
Number(k) == [Base EXCEPT !.f = "ok", !.m = 1000 * k, !.n = "ok", !.i = "ok", !.v = k, !.low = <<k>>]
Texts == {"", "0", "1", "2", "9", "46", "91", "600", "x", "a", "b", "h", "s", "q", "r", "t", "w", "http://a", "UTC", "USD", "20260101", "20261231", "05:00:00", "06:00:00"}
Lex == [t \in Texts |->
  CASE t = "" -> [Base EXCEPT !.low = <<>>] [] t = "0" -> Number(0) [] t = "1" -> Number(1) [] t = "2" -> Number(2) [] t = "9" -> Number(9)
    [] t = "46" -> Number(46) [] t = "91" -> Number(91) [] t = "600" -> Number(600)
    [] t = "http://a" -> [Base EXCEPT !.url = TRUE] [] t = "UTC" -> [Base EXCEPT !.tz = TRUE] [] t = "USD" -> [Base EXCEPT !.cur = TRUE]
    [] t = "20260101" -> [Number(20260) EXCEPT !.d = "ok", !.dn = 1] [] t = "20261231" -> [Number(20261) EXCEPT !.d = "ok", !.dn = 365]
    [] t = "05:00:00" -> [Base EXCEPT !.s = 18000] [] t = "06:00:00" -> [Base EXCEPT !.s = 21600]
    [] OTHER -> Base]

Week(on) == [c \in DayCols |-> on]
Cal(id, on, a, b) == [f |-> "calendar.txt", r |-> Week(on) @@ [service_id |-> id, start_date |-> a, end_date |-> b]]
Exc(id, d, k) == [f |-> "calendar_dates.txt", r |-> [service_id |-> id, date |-> d, exception_type |-> k]]
Pt(lat, q, d) == [f |-> "shapes.txt", r |-> [shape_id |-> "h", shape_pt_lat |-> lat, shape_pt_lon |-> "9", shape_pt_sequence |-> q, shape_dist_traveled |-> d]]
Agency(id, url) == [f |-> "agency.txt", r |-> [agency_id |-> id, agency_name |-> "x", agency_url |-> url, agency_timezone |-> "UTC"]]
Stop(id, lat, par) == [f |-> "stops.txt", r |-> [stop_id |-> id, stop_name |-> "x", stop_lat |-> lat, stop_lon |-> "9", zone_id |-> "a", parent_station |-> par]]
Route(id, ag, ty) == [f |-> "routes.txt", r |-> [route_id |-> id, agency_id |-> ag, route_short_name |-> "1", route_long_name |-> "x", route_type |-> ty]]
Trip(id, rt, sv, sh) == [f |-> "trips.txt", r |-> [trip_id |-> id, route_id |-> rt, service_id |-> sv, shape_id |-> sh]]
Transfer(a, b, ty) == [f |-> "transfers.txt", r |-> [from_stop_id |-> a, to_stop_id |-> b, transfer_type |-> ty]]
Fare(id, p) == [f |-> "fare_attributes.txt", r |-> [fare_id |-> id, price |-> p, currency_type |-> "USD", payment_method |-> "0", transfers |-> ""]]
Rule(id, rt, z) == [f |-> "fare_rules.txt", r |-> [fare_id |-> id, route_id |-> rt, origin_id |-> z]]
Freq(id, h) == [f |-> "frequencies.txt", r |-> [trip_id |-> id, start_time |-> "05:00:00", end_time |-> "06:00:00", headway_secs |-> h]]
Time(id, st, q, a) == [f |-> "stop_times.txt", r |-> [trip_id |-> id, stop_id |-> st, stop_sequence |-> q, arrival_time |-> a, departure_time |-> a]]

Small == {Cal("w", "1", "20260101", "20261231"), Cal("w", "0", "20261231", "20260101"), Exc("w", "20260101", "1"), Exc("w", "20260101", "2"), Exc("x", "x", "9"),
          Pt("46", "1", "0"), Pt("91", "1", "x"), Agency("a", "http://a"), Agency("", "x"), Stop("s", "46", ""), Stop("s", "91", "q"), Stop("", "46", "s"),
          Route("r", "a", "2"), Route("r", "b", "x"), Route("q", "", "9"), Trip("t", "r", "w", "h"), Trip("t", "q", "x", ""),
          Transfer("s", "q", "2"), Transfer("s", "s", "9"), Fare("a", "2"), Fare("a", "x"), Rule("a", "r", "a"), Rule("b", "q", "b"),
          Freq("t", "600"), Freq("q", "0"), Time("t", "s", "1", "05:00:00"), Time("t", "q", "1", ""), Time("q", "s", "x", "x")}
Large == {Cal(i, o, a, b) : i \in {"w", "x", ""}, o \in {"0", "1", "9"}, a \in {"20260101", "x"}, b \in {"20261231", ""}}
   \cup {Exc(i, d, k) : i \in {"w", "x"}, d \in {"20260101", "20261231", "x"}, k \in {"1", "2", "9"}}
   \cup {Pt(l, q, d) : l \in {"46", "91"}, q \in {"0", "1", "x"}, d \in {"", "0", "9"}}
   \cup {Agency(i, u) : i \in {"a", "b", ""}, u \in {"http://a", "x"}}
   \cup {Stop(i, l, p) : i \in {"s", "q", ""}, l \in {"46", "91", "x"}, p \in {"", "s", "b"}}
   \cup {Route(i, a, t) : i \in {"r", "q"}, a \in {"a", "b", ""}, t \in {"2", "9", "x"}}
   \cup {Trip(i, r, s, h) : i \in {"t", "q", ""}, r \in {"r", "q", "x"}, s \in {"w", "b"}, h \in {"", "h", "x"}}
   \cup {Transfer(a, b, t) : a \in {"s", "q", ""}, b \in {"s", "x"}, t \in {"2", "9", ""}}
   \cup {Fare(i, p) : i \in {"a", "b"}, p \in {"2", "x"}} \cup {Rule(i, r, z) : i \in {"a", "b", ""}, r \in {"", "r", "x"}, z \in {"", "a", "b"}}
   \cup {Freq(i, h) : i \in {"t", "q", "x"}, h \in {"600", "0", "x"}}
   \cup {Time(i, s, q, a) : i \in {"t", "q", "x"}, s \in {"s", "q", "x"}, q \in {"0", "1", "2", "x"}, a \in {"05:00:00", "06:00:00", "", "x"}}
Vocabulary == IF Pool = "small" THEN Small ELSE Large

Place(f) == CHOOSE i \in DOMAIN Order : Order[i] = f
Init == rows = <<>>
Next == /\ Len(rows) < Depth
        /\ \E x \in Vocabulary :
             /\ IF rows = <<>> THEN TRUE ELSE Place(x.f) >= Place(rows[Len(rows)].f)
             /\ rows' = Append(rows, [f |-> x.f, n |-> 2 + Cardinality({i \in DOMAIN rows : rows[i].f = x.f}), r |-> x.r, cnt |-> "ok"])
Spec == Init /\ [][Next]_rows

RECURSIVE LoadAll(_, _, _)
LoadAll(w, q, i) == IF i > Len(q) THEN w ELSE LoadAll(Load(w, q[i]), q, i + 1)
Before(q, i) == LoadAll(Empty(Lex, ToSet(q)), SubSeq(q, 1, i - 1), 1)
Loaded(q) == LoadAll(Empty(Lex, ToSet(q)), q, 1)

\* every row is kept or reported (or overruled by a reported one)
KeptOrReported == \A i \in DOMAIN rows : LET w == Before(rows, i)  x == rows[i] IN
  Kept(w, x) \/ Must(w, x) # {} \/ OneOf(w, x) # {}
  \/ (Superseded(w, x) /\ \E j \in i + 1..Len(rows) : \E f \in Must(Before(rows, j), rows[j]) : f.k = "dup")
OneOfExplains == \A i \in DOMAIN rows : LET w == Before(rows, i) IN OneOf(w, rows[i]) # {} => ~Kept(w, rows[i])
Idc == [x \in {"agency.txt"} |-> "agency_id"] @@ "stops.txt" :> "stop_id" @@ "routes.txt" :> "route_id" @@ "trips.txt" :> "trip_id"
  @@ "fare_attributes.txt" :> "fare_id" @@ "calendar.txt" :> "service_id"
KeptOf(w, f) == {w.kept[i] : i \in {i \in DOMAIN w.kept : w.kept[i].f = f}}
UniqueIds == LET w == Loaded(rows) IN
  /\ \A f \in DOMAIN Idc : \A x, y \in KeptOf(w, f) : x.r[Idc[f]] = y.r[Idc[f]] => x = y
  /\ \A x, y \in KeptOf(w, "calendar_dates.txt") : (x.r.service_id = y.r.service_id /\ x.r.date = y.r.date) => x = y
\* a kept row refers to kept rows, or the column was reported
Target == {<<"routes.txt", "agency_id", "agency.txt", "agency_id">>, <<"trips.txt", "route_id", "routes.txt", "route_id">>, <<"trips.txt", "shape_id", "shapes.txt", "shape_id">>,
           <<"fare_rules.txt", "fare_id", "fare_attributes.txt", "fare_id">>, <<"fare_rules.txt", "route_id", "routes.txt", "route_id">>,
           <<"fare_rules.txt", "origin_id", "stops.txt", "zone_id">>, <<"transfers.txt", "from_stop_id", "stops.txt", "stop_id">>,
           <<"transfers.txt", "to_stop_id", "stops.txt", "stop_id">>, <<"frequencies.txt", "trip_id", "trips.txt", "trip_id">>,
           <<"stop_times.txt", "trip_id", "trips.txt", "trip_id">>, <<"stop_times.txt", "stop_id", "stops.txt", "stop_id">>}
NoSilentDangling == LET w == Loaded(rows) IN
  \A g \in Target : \A k \in KeptOf(w, g[1]) : k.r[g[2]] # "" =>
     (g[2] \in k.free \/ \E z \in KeptOf(w, g[3]) : z.r[g[4]] = k.r[g[2]])
\* leaving out the rows that were not kept leaves the same schedule (rows of exceptions also announce a service)
KeptStandsAlone == LET w == Loaded(rows)
                       keeps(x) == \E i \in DOMAIN w.kept : w.kept[i].f = x.f /\ w.kept[i].n = x.n
                       q == SelectSeq(rows, LAMBDA x : keeps(x) \/ x.f = "calendar_dates.txt")
                   IN Loaded(q).kept = w.kept
\* a later row never changes what was kept of the earlier ones (apart from exceptions for the same date)
Monotone == [][\A i \in DOMAIN Loaded(rows).kept :
   LET k == Loaded(rows).kept[i] IN
   (k.f # "calendar_dates.txt" \/ rows'[Len(rows')].f # "calendar_dates.txt") =>
      \E j \in DOMAIN Loaded(rows').kept : Loaded(rows').kept[j].f = k.f /\ Loaded(rows').kept[j].n = k.n]_rows

Emit == (Len(rows) = Depth) => PrintT(<<"BEH", ToJson([i \in DOMAIN rows |-> <<rows[i].f, rows[i].r>>])>>)
=============================================================================
