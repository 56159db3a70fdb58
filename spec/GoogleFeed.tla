----------------------------- MODULE GoogleFeed -----------------------------
(* What the Google extension adds to a feed: kinds of vehicles, entrances,    *)
(* fares of agencies, emissions.  A row's reports are <<column, value, level>> *)
(* with "missing" as level of values that are missing.                        *)
EXTENDS Sequences, Integers, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Elems(q) == {q[i] : i \in DOMAIN q}
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
One(b, r) == IF b THEN <<r>> ELSE <<>>

\* kind of vehicle -> most km per hour
Speeds == (0 :> 100) @@ (1 :> 150) @@ (2 :> 300) @@ (3 :> 100) @@ (4 :> 80) @@ (5 :> 50) @@ (6 :> 50) @@ (7 :> 50)
       @@ (8 :> 50) @@ (9 :> 120) @@ (10 :> 150) @@ (11 :> 100) @@ (12 :> 150)
       @@ (100 :> 300) @@ (101 :> 300) @@ (102 :> 300) @@ (103 :> 300) @@ (105 :> 300) @@ (106 :> 300) @@ (107 :> 300) @@ (108 :> 300) @@ (109 :> 300)
       @@ (200 :> 120) @@ (201 :> 120) @@ (202 :> 120) @@ (204 :> 120) @@ (208 :> 120)
       @@ (400 :> 150) @@ (401 :> 150) @@ (402 :> 150) @@ (403 :> 150) @@ (405 :> 150)
       @@ (700 :> 100) @@ (701 :> 120) @@ (702 :> 120) @@ (704 :> 100) @@ (715 :> 120) @@ (717 :> 120)
       @@ (800 :> 100) @@ (900 :> 100) @@ (1000 :> 80) @@ (1100 :> 1000) @@ (1300 :> 50) @@ (1400 :> 50)
       @@ (1500 :> 100) @@ (1501 :> 100) @@ (1700 :> 100) @@ (1701 :> 50) @@ (1702 :> 50)
Vehicles == DOMAIN Speeds

\* a cell that should hold an integer: [text, num], num = -1 if it is not one
IsNum(x) == x.num >= 0
\* stops: [id, name, type, vehicle, parent, zone, code, used]; a bad type is read as 0
TypeOf(s) == IF IsNum(s.type) THEN s.type.num ELSE 0
HasVehicle(s) == IsNum(s.vehicle)
StopReports(s) ==
     One(s.name = "" /\ TypeOf(s) # 2, <<"stop_name", "", "missing">>)
  \o One(s.type.text # "" /\ ~IsNum(s.type), <<"location_type", s.type.text, "E">>)
  \o One(IsNum(s.type) /\ s.type.num > 2, <<"location_type", s.type.text, "W">>)
  \o One(TypeOf(s) = 2 /\ s.parent = "", <<"location_type", s.type.text, "E">>)
  \o One(s.zone # "" /\ s.parent # "", <<"stop_timezone", s.zone, "W">>)
  \o One(TypeOf(s) = 1 /\ s.parent # "", <<"parent_station", s.parent, "E">>)
  \o One(s.vehicle.text # "" /\ ~HasVehicle(s), <<"vehicle_type", s.vehicle.text, "E">>)
  \o One(HasVehicle(s) /\ s.vehicle.num \notin Vehicles, <<"vehicle_type", s.vehicle.text, "W">>)
  \o One(HasVehicle(s) /\ TypeOf(s) = 2, <<"vehicle_type", s.vehicle.text, "E">>)
  \o One(HasVehicle(s) /\ TypeOf(s) # 2 /\ s.parent # "", <<"vehicle_type", s.vehicle.text, "W">>)
\* what loading leaves of a stop: numbers, none where there was none
Blank == [text |-> "", num |-> -1]
LoadedStop(s) == [s EXCEPT !.type = [text |-> ToString(TypeOf(s)), num |-> TypeOf(s)], !.vehicle = IF HasVehicle(s) THEN s.vehicle ELSE Blank]
\* routes: [id, type, co2 (text), isnum, minutes]: 100 km travelled in so many minutes
RouteReports(r) == One(r.co2 # "" /\ ~r.isnum, <<"co2_per_km", r.co2, "E">>)
                \o One(r.type.num \notin Vehicles, <<"route_type", r.type.text, "W">>)
Limit(r) == IF r.type.num \in Vehicles THEN Speeds[r.type.num] ELSE Speeds[0]
TooFast(r) == 6000 > Limit(r) * r.minutes
\* fares: [id, agency]; agencies: ids
FareReports(f, ags) == One(f.agency \notin Elems(ags) /\ (f.agency # "" \/ Len(ags) > 1), <<"agency_id", f.agency, "E">>)

Tables == {"stops", "routes", "fares"}
ReportsOf(w, t, i) == CASE t = "stops" -> StopReports(w.stops[i]) [] t = "routes" -> RouteReports(w.routes[i]) [] OTHER -> FareReports(w.fares[i], w.ags)
Unused(w) == {w.stops[i].id : i \in {k \in DOMAIN w.stops : TypeOf(w.stops[k]) = 0 /\ ~w.stops[k].used}}
\* after loading the stops are as loaded; validating them again finds what is still wrong
Loaded(w) == [w EXCEPT !.stops = [i \in DOMAIN w.stops |-> LoadedStop(w.stops[i])]]
\* a bad emission figure stays as it is, and is found again
Again(w) == FlattenSeq([i \in DOMAIN w.stops |-> StopReports(w.stops[i])]) \o FlattenSeq([i \in DOMAIN w.routes |-> RouteReports(w.routes[i])])
Edit(w, e) == CASE e.op = "load" -> Loaded(w)
                [] e.op = "stop" -> [w EXCEPT !.stops[e.at] = e.new]
                [] e.op = "route" -> [w EXCEPT !.routes[e.at] = e.new]
                [] OTHER -> w
=============================================================================
