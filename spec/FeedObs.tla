------------------------------ MODULE FeedObs ------------------------------
(* What a recorded load shows, compared with Feed.tla: the problems located  *)
(* at a row and the entities of the schedule afterwards.                     *)
EXTENDS Feed

\* ---- values: a recorded value v = [z, t, n] against the text of a cell
ValueIs(w, v, t) ==
  CASE v.z = "0" -> t = ""
    [] v.z = "s" -> v.t = t
    [] v.z = "n" -> t # "" /\ ((w.lex[t].f # "bad" /\ w.lex[t].m = v.n) \/ (w.lex[t].s >= 0 /\ w.lex[t].s * 1000 = v.n))
    [] OTHER -> FALSE

Classes(k) == CASE k = "missing" -> {"MissingValue", "InvalidValue"} [] k = "invalid" -> {"InvalidValue"}
  [] k = "date" -> {"DateOutsideValidRange"} [] k = "dup" -> {"DuplicateID"}
  [] k = "odd" -> {"InvalidFloatValue", "InvalidNonNegativeIntegerValue"}
  [] k \in {"other", "cells"} -> {"OtherProblem"}
  [] k = "mintype" -> {"MinimumTransferTimeSetWithInvalidTransferType"}
  [] k = "distance" -> {"TransferDistanceTooBig", "TransferWalkingSpeedTooFast"}
ValueFits(w, p, f) == IF f.k \in {"other", "cells", "mintype", "distance"} THEN TRUE
  ELSE IF f.k = "dup" THEN (p.v.z = "s" /\ p.v.t \in f.v) \/ (p.v.z = "0" /\ "" \in f.v)
  ELSE \E t \in f.v : ValueIs(w, p.v, t)
Fits(w, p, f) == /\ p.cls \in Classes(f.k) /\ p.l = f.l
                 /\ (p.c = f.c \/ (f.k = "odd" /\ p.c = ""))
                 /\ ValueFits(w, p, f)

\* the cells a problem shows are those of the row
Shows(p, x) == LET seen == {p.cells[i][1] : i \in DOMAIN p.cells} IN
  /\ \A i \in DOMAIN p.cells : p.cells[i][2] = T(x.r, p.cells[i][1])
  /\ \A c \in DOMAIN x.r : c \in seen \/ (c \notin Known(x.f) /\ x.f \in {"calendar.txt", "calendar_dates.txt", "stop_times.txt"})

\* ---- file-level faults
RestDue(case) ==
  UNION {{<<"UnrecognizedColumn", "W", f, c>> : c \in ToSet(case.heads[f]) \ Known(f)}
         \cup {<<"MissingColumn", "E", f, c>> : c \in Required[f] \ ToSet(case.heads[f])}
         \cup {<<"DeprecatedColumn", "W", f, c>> : c \in Deprecated[f] \cap ToSet(case.heads[f])} : f \in DOMAIN case.heads}
  \cup {<<"UnknownFile", "W", f, "">> : f \in ToSet(case.odd)}
  \cup {<<"EmptyFile", "E", f, "">> : f \in ToSet(case.empty)}
  \cup {<<"MissingFile", "E", f, "">> : f \in Obligatory \ (DOMAIN case.heads \cup ToSet(case.empty))}
  \cup On({"calendar.txt", "calendar_dates.txt"} \cap (DOMAIN case.heads \cup ToSet(case.empty)) = {}, {<<"MissingFile", "E", "calendar.txt", "">>})

\* ---- entities
\* columns whose values are read as numbers; the others are kept as they are
Numbers == {"stop_lat", "stop_lon", "location_type", "wheelchair_boarding", "route_type", "bikes_allowed", "direction_id", "wheelchair_accessible", "price", "payment_method",
            "transfers", "transfer_duration", "transfer_type", "min_transfer_time", "start_time", "end_time", "headway_secs", "exact_times", "arrival_time", "departure_time",
            "stop_sequence", "pickup_type", "drop_off_type", "shape_dist_traveled", "timepoint", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence", "exception_type"} \cup DayCols
Default(f, c, v) == \/ v.z = "0"
  \/ /\ v.z = "n" /\ v.n = 0 /\ <<f, c>> \in {<<"stops.txt", "location_type">>, <<"transfers.txt", "transfer_type">>, <<"frequencies.txt", "exact_times">>}
  \/ /\ v.z = "s" /\ v.t = "0" /\ f = "calendar.txt" /\ c \in DayCols
NoValue == [z |-> "0", t |-> "", n |-> 0]
ValueAt(e, c) == IF c \in DOMAIN e.c THEN e.c[c] ELSE NoValue
Tracked(f, c) == c \in Known(f) \/ f \in KeepsExtra
CellIs(w, k, e, c) ==
  LET t == T(k.r, c)  v == ValueAt(e, c) IN
  \/ c \in k.free
  \/ ValueIs(w, v, t) /\ (c \in Numbers \/ v.z # "n")
  \/ /\ t = "" /\ Default(k.f, c, v)
  \/ /\ k.f = "calendar.txt" /\ c \in DayCols /\ t = "" /\ v.z = "s" /\ v.t = "0"
Represents(w, k, e) ==
  /\ e.f = k.f
  /\ \A c \in {c \in DOMAIN k.r : Tracked(k.f, c)} : CellIs(w, k, e, c)
  /\ \A c \in DOMAIN e.c \ DOMAIN k.r : Default(k.f, c, e.c[c]) \/ c \in k.free
KeyColumn(f) == CASE f = "agency.txt" -> "agency_id" [] f = "stops.txt" -> "stop_id" [] f = "routes.txt" -> "route_id"
  [] f \in {"trips.txt", "frequencies.txt", "stop_times.txt"} -> "trip_id" [] f \in {"fare_attributes.txt", "fare_rules.txt"} -> "fare_id"
  [] f = "shapes.txt" -> "shape_id" [] f \in {"calendar.txt", "calendar_dates.txt"} -> "service_id" [] OTHER -> ""
Filed(e) == e.ok /\ LET c == KeyColumn(e.f) IN
  IF c = "" THEN e.key = Absent ELSE IF c \in DOMAIN e.c THEN e.c[c].z = "s" /\ e.c[c].t = e.key ELSE e.key \in {"", Absent}

\* an exception is given by the last row about its date
Held(w) == {w.kept[i] : i \in DOMAIN w.kept}
KeptOf(w, f) == SelectSeq(w.kept, LAMBDA k : k.f = f)
EntsOf(E, f) == SelectSeq(E, LAMBDA e : e.f = f)
RowsRepresented(w, E, f) == LET K == KeptOf(w, f)  X == EntsOf(E, f) IN
  \A k \in DOMAIN K : Cardinality({j \in DOMAIN X : Represents(w, K[k], X[j])}) >= Cardinality({m \in DOMAIN K : K[m].r = K[k].r})
NothingElse(w, E, f) == LET K == KeptOf(w, f)  X == EntsOf(E, f) IN
  Len(K) = Len(X) /\ \A j \in DOMAIN X : \E k \in DOMAIN K : Represents(w, K[k], X[j])
OwnIds(w, f) == {Key(k.r, KeyColumn(f)) : k \in {k \in Held(w) : k.f = f}}
NoParents(w) == {T(k.r, "parent_station") : k \in {k \in ToSet(KeptOf(w, "stops.txt")) : "parent_station" \notin k.free /\ ~Blank(k.r, "parent_station") /\ T(k.r, "parent_station") \notin w.ids.stop}}
TripsOf(w, id) == LET q == SelectSeq(w.kept, LAMBDA k : k.f = "trips.txt" /\ Key(k.r, "route_id") = id) IN [i \in DOMAIN q |-> T(q[i].r, "trip_id")]
=============================================================================
