-------------------------------- MODULE KML --------------------------------
(* The KML document written for a schedule, and what reading a KML document *)
(* adds to a schedule.                                                      *)
(*                                                                          *)
(* Feed f: stops, a sequence of [id, name, desc, url, lat, lon, type,       *)
(* parent (an index, 0: none)]; routes of [id, short, long, desc, url,      *)
(* type, color]; trips of [id, route (index), hs, shape (index), stops      *)
(* (indices), secs (seconds, one per stop), active (on the asked day)];     *)
(* shapes of [id, pts]; rank: the names in their sorted order.              *)
(* Coordinates of a feed are in 1e-7 degrees, those of a document in 1e-6   *)
(* degrees and, when there is an altitude, half metres.                     *)
(* Options o: trips, hier, split, points, alt2 (half metres per second),    *)
(* day (is a day asked?).                                                   *)
(* Document: [folders, styles]; a folder is [name, desc, hidden, marks,     *)
(* subs]; a mark [name, desc, style, hidden, geom, pts].                    *)
EXTENDS Sequences, Integers, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Micro(x) == (x + 5) \div 10
Join(q, sep) == IF q = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, q[1], SubSeq(q, 2, Len(q)))
Opt(cond, x) == IF cond THEN <<x>> ELSE <<>>
PosIn(q, x) == IF \E i \in DOMAIN q : q[i] = x THEN CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in 1 .. i - 1 : q[j] # x ELSE 0
Where(q, P(_)) == SelectSeq([i \in DOMAIN q |-> i], LAMBDA i : P(q[i]))
Link(url) == "<a href=\"" \o url \o "\">" \o url \o "</a>"
Ordered(q, key(_)) == SortSeq(q, LAMBDA a, b : key(a) < key(b))
StableBy(q, key(_)) == LET n == Len(q)
                           s == SortSeq([i \in 1 .. n |-> <<key(q[i]), i>>], LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
                       IN [i \in 1 .. n |-> q[s[i][2]]]

Folder(name, desc, hidden, marks, subs) == [name |-> name, desc |-> desc, hidden |-> hidden, marks |-> marks, subs |-> subs]
Plain(name, marks, subs) == Folder(name, "", FALSE, marks, subs)
Mark(name, desc, style, hidden, geom, pts) ==
  [name |-> name, desc |-> desc, style |-> style, hidden |-> hidden, geom |-> geom, pts |-> pts]
\* a line without any point is left out
LineMark(name, desc, style, hidden, pts) == Mark(name, desc, style, hidden, IF pts = <<>> THEN "" ELSE "LineString", pts)
At(s) == <<Micro(s.lon), Micro(s.lat)>>

(*----------------------------- stops --------------------------------------*)
Station(s) == s.type = 1
Entrance(s) == s.type = 2
Platform(s) == ~Station(s) /\ ~Entrance(s) /\ s.parent # 0
Alone(s) == ~Station(s) /\ ~Entrance(s) /\ s.parent = 0
StopStyle(s) == IF Station(s) THEN "#stop_station" ELSE IF Entrance(s) THEN "#stop_entrance"
                ELSE IF Platform(s) THEN "#stop_platform" ELSE "#stop_standalone"
StopDesc(s) == Join(<<"Stop id: " \o s.id>> \o Opt(s.desc # "", s.desc) \o Opt(s.url # "", "Stop info page: " \o Link(s.url)), "<br/>")
StopMark(s, o) == Mark(s.name, StopDesc(s), IF o.hier THEN StopStyle(s) ELSE "", FALSE, "Point", <<At(s)>>)
Connect(f, s) == LineMark(s.name, "", IF Entrance(s) THEN "#entrance_connection" ELSE "#platform_connection", FALSE,
                          <<At(s), At(f.stops[s.parent])>>)
Kept(q, P(_), M(_)) == LET w == SelectSeq(q, P) IN [i \in DOMAIN w |-> M(w[i])]
ByName(f) == StableBy(f.stops, LAMBDA s : PosIn(f.rank, s.name))
StopsFolders(f, o) ==
  IF f.stops = <<>> THEN <<>> ELSE
  LET q == ByName(f)  M(s) == StopMark(s, o)  C(s) == Connect(f, s) IN
  IF ~o.hier THEN <<Plain("Stops", [i \in DOMAIN q |-> M(q[i])], <<>>)>>
  ELSE <<Plain("Stops", <<>>,
     << Plain("Stations", Kept(q, Station, M), <<>>),
        Plain("Platforms", Kept(q, Platform, M), <<Plain("Connections", Kept(q, Platform, C), <<>>)>>),
        Plain("Entrances", Kept(q, Entrance, M), <<Plain("Connections", Kept(q, LAMBDA s : Entrance(s) /\ s.parent # 0, C), <<>>)>>),
        Plain("Stand-Alone", Kept(q, Alone, M), <<>>) >>)>>

(*----------------------------- routes -------------------------------------*)
RouteName(r) == LET w == Opt(r.short # "", "<b>" \o r.short \o "</b>") \o Opt(r.long # "", r.long)
                IN IF w = <<>> THEN r.id ELSE Join(w, " - ")
RouteDesc(r) == Join(Opt(r.desc # "", r.desc) \o Opt(r.url # "", "Route info page: " \o Link(r.url)), "<br/>")
TypeName(t) == IF t \in 0 .. 7
  THEN <<"Tram, Streetcar or Light rail", "Subway or Metro", "Rail", "Bus", "Ferry", "Cable car", "Gondola or suspended cable car", "Funicular">>[t + 1]
  ELSE ToString(t)
TripsOf(f, i) == Where(f.trips, LAMBDA t : t.route = i)
Ids(f, ts) == Join([i \in DOMAIN ts |-> f.trips[ts[i]].id], ", ")
UsedBy(f, what, ts) == "Trips using this " \o what \o " (" \o ToString(Len(ts)) \o " in total): " \o Ids(f, ts)
RStyle(r) == "#route_" \o r.id
\* the groups of a route's trips, largest first; the groups of one size may come in any order
Groups(f, i, key(_), keep(_)) ==
  LET ts == SelectSeq(TripsOf(f, i), LAMBDA t : keep(f.trips[t]))
      first == SelectSeq(ts, LAMBDA t : \A u \in ToSet(ts) : u < t => key(f.trips[u]) # key(f.trips[t]))
      g == [j \in DOMAIN first |-> SelectSeq(ts, LAMBDA t : key(f.trips[t]) = key(f.trips[first[j]]))]
  IN StableBy(g, LAMBDA x : 0 - Len(x))
Patterns(f, i) == Groups(f, i, LAMBDA t : t.stops, LAMBDA t : TRUE)
ShapeGroups(f, i) == Groups(f, i, LAMBDA t : t.shape, LAMBDA t : t.shape # 0)
Line(f, q) == [i \in DOMAIN q |-> At(f.stops[q[i]])]
Points(h) == [i \in DOMAIN h.pts |-> <<Micro(h.pts[i][2]), Micro(h.pts[i][1])>>]
PatternsFolders(f, i) ==
  LET g == Patterns(f, i) IN
  IF g = <<>> THEN <<>> ELSE
  <<Folder("Patterns", "", TRUE, [n \in DOMAIN g |->
      LineMark("Pattern " \o ToString(n) \o " (trips: " \o ToString(Len(g[n])) \o ")", UsedBy(f, "pattern", g[n]),
               RStyle(f.routes[i]), TRUE, Line(f, f.trips[g[n][1]].stops))], <<>>)>>
RouteShapesFolders(f, i) ==
  LET g == ShapeGroups(f, i) IN
  IF g = <<>> THEN <<>> ELSE
  <<Folder("Shapes", "", TRUE, [n \in DOMAIN g |->
      LET h == f.shapes[f.trips[g[n][1]].shape] IN
      LineMark(h.id \o " (trips: " \o ToString(Len(g[n])) \o ")", UsedBy(f, "shape", g[n]), RStyle(f.routes[i]), TRUE, Points(h))], <<>>)>>
High(t, k, o) == IF o.alt2 > 0 THEN <<(t.secs[k] - 14400) * o.alt2>> ELSE <<>>
TripMark(f, t, o) ==
  LineMark(t.id, IF t.hs = "" THEN "" ELSE "Headsign: " \o t.hs, RStyle(f.routes[t.route]), TRUE,
           [k \in DOMAIN t.stops |-> At(f.stops[t.stops[k]]) \o High(t, k, o)])
Shown(t, o) == o.day => t.active
TripsFolders(f, i, o) ==
  LET ts == TripsOf(f, i)
      q == StableBy(SelectSeq([k \in DOMAIN ts |-> f.trips[ts[k]]], LAMBDA t : Shown(t, o)), LAMBDA t : PosIn(f.rank, t.id))
  IN IF ~o.trips \/ ts = <<>> THEN <<>> ELSE <<Folder("Trips", "", TRUE, [k \in DOMAIN q |-> TripMark(f, q[k], o)], <<>>)>>
RouteFolder(f, i, o) == Plain(RouteName(f.routes[i]), <<>>, RouteShapesFolders(f, i) \o PatternsFolders(f, i) \o TripsFolders(f, i, o))
RouteFolderD(f, i, o) == [RouteFolder(f, i, o) EXCEPT !.desc = RouteDesc(f.routes[i])]
RoutesFolder(f, o, name, q) ==
  LET s == StableBy(q, LAMBDA i : PosIn(f.rank, RouteName(f.routes[i])))
  IN Folder(name, "", TRUE, <<>>, [k \in DOMAIN s |-> RouteFolderD(f, s[k], o)])
Types(f) == SetToSortSeq({f.routes[i].type : i \in DOMAIN f.routes}, <)
RoutesFolders(f, o) ==
  IF f.routes = <<>> THEN <<>>
  ELSE IF ~o.split THEN <<RoutesFolder(f, o, "Routes", [i \in DOMAIN f.routes |-> i])>>
  ELSE LET w == Types(f) IN [n \in DOMAIN w |-> RoutesFolder(f, o, "Routes - " \o TypeName(w[n]), Where(f.routes, LAMBDA r : r.type = w[n]))]

(*----------------------------- shapes -------------------------------------*)
ShapesFolders(f, o) ==
  LET q == StableBy(f.shapes, LAMBDA h : PosIn(f.rank, h.id)) IN
  IF q = <<>> THEN <<>> ELSE
  <<Plain("Shapes", [i \in DOMAIN q |-> LineMark(q[i].id, "", "", FALSE, Points(q[i]))],
          IF ~o.points THEN <<>> ELSE
          [i \in DOMAIN q |-> Folder(q[i].id \o " Shape Points", "", TRUE,
             [k \in DOMAIN q[i].pts |-> Mark(ToString(k), "", "", FALSE, "Point", <<Points(q[i])[k]>>)], <<>>)])>>

Bgr(c) == SubSeq(c, 5, 6) \o SubSeq(c, 3, 4) \o SubSeq(c, 1, 2)
Style(id, width, color) == [id |-> id, width |-> width, color |-> color]
RouteStyle(r) == Style("route_" \o r.id, IF r.type \in {0, 1} THEN "3" ELSE IF r.type = 2 THEN "5" ELSE "1", IF r.color = "" THEN "" ELSE "ff" \o Bgr(r.color))
HierStyles == { Style("stop_entrance", "", "ff0000ff"), Style("entrance_connection", "2", "ff0000ff"), Style("stop_platform", "", "ffff0000"),
                Style("platform_connection", "2", "ffff0000"), Style("stop_standalone", "", "ff00ff00") }
Styles(f, o) == {RouteStyle(f.routes[i]) : i \in DOMAIN f.routes} \cup (IF o.hier /\ f.stops # <<>> THEN HierStyles ELSE {})

Folders(f, o) == StopsFolders(f, o) \o RoutesFolders(f, o) \o ShapesFolders(f, o)

(*------------------------ the same document -------------------------------*)
(* Equal but for what the sort leaves open: entries of equal keys.          *)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Count(a, x) = Count(b, x)
Nameless(q) == [i \in DOMAIN q |-> [q[i] EXCEPT !.name = ""]]
SameMarks(a, b) == SameBag(a, b) /\ \A i \in DOMAIN a : a[i].name = b[i].name
\* groups of one size come in any order; the numbers in the names of the patterns follow the order
UpTo(d) == SubSeq(d, 1, CHOOSE j \in 1 .. Len(d) : SubSeq(d, j, j) = ")" /\ \A k \in 1 .. j - 1 : SubSeq(d, k, k) # ")")
Largest(a, b) == \A i \in DOMAIN a : UpTo(a[i].desc) = UpTo(b[i].desc)
SamePatterns(a, b) == SameBag(Nameless(a), Nameless(b)) /\ Largest(a, b) /\ \A i \in DOMAIN a : a[i].name = b[i].name
SameGroups(a, b) == SameBag(a, b) /\ Largest(a, b)
SameSub(a, b) == /\ a.name = b.name /\ a.desc = b.desc /\ a.hidden = b.hidden /\ a.subs = b.subs
                 /\ CASE a.name = "Patterns" -> SamePatterns(a.marks, b.marks)
                      [] a.name = "Shapes" -> SameGroups(a.marks, b.marks)
                      [] OTHER -> a.marks = b.marks
SameRoute(a, b) == a.name = b.name /\ a.desc = b.desc /\ a.hidden = b.hidden /\ a.marks = b.marks /\ Len(a.subs) = Len(b.subs)
                   /\ \A i \in DOMAIN a.subs : SameSub(a.subs[i], b.subs[i])
SameRoutes(a, b) == /\ a.hidden = b.hidden /\ a.desc = b.desc /\ a.marks = b.marks
                    /\ Len(a.subs) = Len(b.subs) /\ \A i \in DOMAIN a.subs : a.subs[i].name = b.subs[i].name
                    /\ \E p \in {p \in [DOMAIN a.subs -> DOMAIN a.subs] : IsInjective(p)} : \A i \in DOMAIN a.subs : SameRoute(a.subs[i], b.subs[p[i]])
RECURSIVE SameStops(_, _)
SameStops(a, b) == /\ a.name = b.name /\ a.desc = b.desc /\ a.hidden = b.hidden /\ SameMarks(a.marks, b.marks)
                   /\ Len(a.subs) = Len(b.subs) /\ \A i \in DOMAIN a.subs : SameStops(a.subs[i], b.subs[i])

(*------------------------------ reading -----------------------------------*)
RECURSIVE MarksOf(_)
MarksOf(d) == d.marks \o FlattenSeq([i \in DOMAIN d.subs |-> MarksOf(d.subs[i])])
Flat(p) == [i \in DOMAIN p |-> SubSeq(p[i], 1, 2)]
\* b: [stops: sequence of <<name, lon, lat>>, shapes: sequence of [id, pts]]
Empty == [stops |-> <<>>, shapes |-> <<>>]
Ids2(b) == {b.shapes[i].id : i \in DOMAIN b.shapes}
ReadMark(b, m, fresh) ==
  LET p == Flat(m.pts) IN
  IF Len(p) = 0 THEN b
  ELSE IF Len(p) = 1 THEN [b EXCEPT !.stops = Append(@, <<m.name, p[1][1], p[1][2]>>)]
  ELSE IF \E i \in DOMAIN b.shapes : b.shapes[i].id = m.name
       THEN IF \E i \in DOMAIN b.shapes : b.shapes[i].id = m.name /\ b.shapes[i].pts = p THEN b
            ELSE [b EXCEPT !.shapes = Append(@, [id |-> fresh, pts |-> p])]
       ELSE [b EXCEPT !.shapes = Append(@, [id |-> m.name, pts |-> p])]
============================================================================
