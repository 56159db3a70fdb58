------------------------------- MODULE KMLMC -------------------------------
(* A feed is made up, written as KML a folder at a time, and the document   *)
(* is read back a mark at a time.                                           *)
EXTENDS KML
CONSTANTS Few, MaxStops, MaxRoutes, MaxTrips, MaxShapes
VARIABLES phase, f, o, doc, todo, read
vars == <<phase, f, o, doc, todo, read>>
Names == <<"A", "B", "T1", "T2", "S1", "S2", "<b>X</b>", "<b>X</b> - L", "r1", "r2">>
Lines == {<<1, 1>>, <<1, 2>>, <<2>>}
NoFeed == [stops |-> <<>>, routes |-> <<>>, trips |-> <<>>, shapes |-> <<>>, rank |-> Names]
Init == /\ phase = "stops" /\ f = NoFeed /\ doc = <<>> /\ todo = <<>> /\ read = Empty
        /\ o \in [trips : BOOLEAN, hier : BOOLEAN, split : BOOLEAN, points : BOOLEAN, alt2 : {0}, day : BOOLEAN]
        /\ (o.day => o.trips) /\ (o.points => o.hier \/ ~Few) /\ (Few => o.trips /\ o.hier # o.day /\ o.hier = o.split /\ o.split = o.points)
Same(v) == UNCHANGED v
AddStop(name, type, parent) ==
  /\ phase = "stops" /\ Len(f.stops) < MaxStops /\ parent \in 0 .. Len(f.stops)
  /\ (parent # 0 => type # 1 /\ f.stops[parent].type = 1) /\ (type = 2 => parent # 0)
  /\ f' = [f EXCEPT !.stops = Append(@, [id |-> ToString(Len(@)), name |-> name, desc |-> "", url |-> "", lat |-> 10 * Len(@), lon |-> 20, type |-> type, parent |-> parent])]
  /\ UNCHANGED <<phase, o, doc, todo, read>>
AddShape(pts) ==
  /\ phase = "shapes" /\ Len(f.shapes) < MaxShapes
  /\ f' = [f EXCEPT !.shapes = Append(@, [id |-> <<"T1", "S1">>[Len(@) + 1], pts |-> [i \in DOMAIN pts |-> <<10 * pts[i], 10 * i>>]])]
  /\ UNCHANGED <<phase, o, doc, todo, read>>
AddRoute(type, short) ==
  /\ phase = "routes" /\ Len(f.routes) < MaxRoutes
  /\ f' = [f EXCEPT !.routes = Append(@, [id |-> <<"r1", "r2">>[Len(@) + 1], short |-> short, long |-> "", desc |-> "", url |-> "", type |-> type, color |-> ""])]
  /\ UNCHANGED <<phase, o, doc, todo, read>>
AddTrip(route, shape, q, active) ==
  /\ phase = "trips" /\ Len(f.trips) < MaxTrips /\ route \in DOMAIN f.routes /\ shape \in 0 .. Len(f.shapes) /\ ToSet(q) \subseteq DOMAIN f.stops
  /\ (~o.day => active)
  /\ f' = [f EXCEPT !.trips = Append(@, [id |-> <<"T1", "T2">>[Len(@) + 1], route |-> route, hs |-> "", shape |-> shape, stops |-> q, secs |-> q, active |-> active])]
  /\ UNCHANGED <<phase, o, doc, todo, read>>
Order == <<"stops", "shapes", "routes", "trips", "write stops", "write routes", "write shapes", "read", "done">>
After(p) == Order[PosIn(Order, p) + 1]
Enough == /\ phase \in {"stops", "shapes", "routes", "trips"} /\ phase' = After(phase) /\ UNCHANGED <<f, o, doc, todo, read>>
Write == /\ phase \in {"write stops", "write routes", "write shapes"}
         /\ doc' = doc \o (CASE phase = "write stops" -> StopsFolders(f, o) [] phase = "write routes" -> RoutesFolders(f, o) [] OTHER -> ShapesFolders(f, o))
         /\ phase' = After(phase)
         /\ todo' = IF phase' = "read" THEN FlattenSeq([i \in DOMAIN doc' |-> MarksOf(doc'[i])]) ELSE <<>>
         /\ UNCHANGED <<f, o, read>>
\* the name a line gets when its own is taken by another line
Fresh(b, name) == LET n == CHOOSE n \in Len(b.shapes) .. 2 * Len(b.shapes) + 1 :
                             name \o "_" \o ToString(n) \notin Ids2(b) /\ \A k \in Len(b.shapes) .. n - 1 : name \o "_" \o ToString(k) \in Ids2(b)
                  IN name \o "_" \o ToString(n)
Read == /\ phase = "read" /\ todo # <<>>
        /\ read' = ReadMark(read, todo[1], Fresh(read, todo[1].name)) /\ todo' = SubSeq(todo, 2, Len(todo))
        /\ UNCHANGED <<phase, f, o, doc>>
End == phase = "read" /\ todo = <<>> /\ phase' = "done" /\ UNCHANGED <<f, o, doc, todo, read>>
Next == \/ \E n \in (IF Few THEN {"A"} ELSE {"A", "B"}), t \in {0, 1, 2}, p \in 0 .. MaxStops : AddStop(n, t, p)
        \/ \E q \in Lines : AddShape(q)
        \/ \E t \in {0, 3}, s \in (IF Few THEN {"X"} ELSE {"", "X"}) : AddRoute(t, s)
        \/ \E r \in 1 .. MaxRoutes, h \in 0 .. MaxShapes, q \in (IF Few THEN {<<1>>, <<1, 2>>} ELSE {<<>>, <<1>>, <<1, 2>>}), a \in BOOLEAN : AddTrip(r, h, q, a)
        \/ Enough \/ Write \/ Read \/ End
Spec == Init /\ [][Next]_vars

Written == phase \in {"read", "done"}
All(P(_)) == {d \in ToSet(doc) : P(d)}
StopDoc == SelectSeq(doc, LAMBDA d : d.name = "Stops")
RouteDocs == SelectSeq(doc, LAMBDA d : d.name \notin {"Stops", "Shapes"})
RFolders == FlattenSeq([i \in DOMAIN RouteDocs |-> RouteDocs[i].subs])
Sub(d, n) == SelectSeq(d.subs, LAMBDA x : x.name = n)
SubMarks(n) == FlattenSeq([i \in DOMAIN RFolders |-> FlattenSeq([k \in DOMAIN Sub(RFolders[i], n) |-> Sub(RFolders[i], n)[k].marks])])
OnePerStop == Written => \A i \in DOMAIN f.stops :
  Cardinality({k \in DOMAIN MarksOf(Plain("", <<>>, StopDoc)) : MarksOf(Plain("", <<>>, StopDoc))[k].desc = "Stop id: " \o f.stops[i].id}) = 1
OnePerRoute == Written => Len(RFolders) = Len(f.routes)
ExactlyTheTrips == Written => LET m == SubMarks("Trips") IN
  /\ {m[i].name : i \in DOMAIN m} = {f.trips[t].id : t \in {t \in DOMAIN f.trips : o.trips /\ (o.day => f.trips[t].active)}}
  /\ \A i, k \in DOMAIN m : m[i].name = m[k].name => i = k
Size(m) == CHOOSE n \in 1 .. MaxTrips : UpTo(m.desc) = "Trips using this pattern (" \o ToString(n) \o " in total)"
PatternsPartition == Written => LET m == SubMarks("Patterns") IN FoldLeft(LAMBDA a, x : a + Size(x), 0, m) = Len(f.trips)
OneShapeEach == Written => \A h \in ToSet(f.shapes) : \E d \in ToSet(doc) : d.name = "Shapes" /\ Cardinality({i \in DOMAIN d.marks : d.marks[i].name = h.id}) = 1
Sound == /\ \A a, b \in ToSet(read.shapes) : a.id = b.id => a = b
         /\ Cardinality(Ids2(read)) = Len(read.shapes)
BackAgain == phase = "done" =>
  /\ \A i \in DOMAIN f.stops : <<f.stops[i].name, 2, Micro(f.stops[i].lat)>> \in ToSet(read.stops)
  /\ \A h \in ToSet(f.shapes) : Len(h.pts) > 1 => \E x \in ToSet(read.shapes) :
       x.pts = Points(h) /\ (x.id = h.id \/ \E y \in ToSet(read.shapes) : y.id = h.id)
  /\ \A x \in ToSet(read.shapes) : \E m \in ToSet(FlattenSeq([i \in DOMAIN doc |-> MarksOf(doc[i])])) : Flat(m.pts) = x.pts
============================================================================
