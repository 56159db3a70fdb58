------------------------------ MODULE KMLTrace ------------------------------
EXTENDS KML, TraceIO
VARIABLES c, l, s
CStart(case) == [f |-> case.feed, o |-> case.o, marks |-> <<>>]
CPost(w, e) == IF e.op = "write" \/ e.op = "file" THEN [w EXCEPT !.marks = e.o.flat] ELSE w
Named(q, n) == SelectSeq(q, LAMBDA d : d.name = n)
Mids(q) == SelectSeq(q, LAMBDA d : d.name \notin {"Stops", "Shapes"})
OneSame(a, b, P(_, _)) == Len(a) = Len(b) /\ \A i \in DOMAIN a : P(a[i], b[i])
SameShapes(a, b) == a.desc = b.desc /\ a.hidden = b.hidden /\ a.marks = b.marks /\ a.subs = b.subs
\* every line with two points or more is there, the first of each name under its name
Lines(m) == SelectSeq(m, LAMBDA x : Len(x.pts) > 1)
Firsts(m) == LET q == Lines(m) IN {i \in DOMAIN q : \A j \in 1 .. i - 1 : q[j].name # q[i].name}
Own(m, n) == LET q == Lines(m) IN q[CHOOSE i \in Firsts(m) : q[i].name = n]
Others(m) == LET q == Lines(m) IN {i \in DOMAIN q : i \notin Firsts(m) /\ Flat(q[i].pts) # Flat(Own(m, q[i].name).pts)}
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
Dots(m) == LET q == SelectSeq(m, LAMBDA x : Len(x.pts) = 1) IN [i \in DOMAIN q |-> <<q[i].name, q[i].pts[1][1], q[i].pts[1][2]>>]
ReadOk(m, o) ==
  /\ o.stops = Dots(m)
  /\ Cardinality({o.shapes[i].id : i \in DOMAIN o.shapes}) = Len(o.shapes)
  /\ \A i \in Firsts(m) : LET x == Lines(m)[i] IN [id |-> x.name, pts |-> Flat(x.pts)] \in ToSet(o.shapes) \/ o.taken
  /\ \A i \in Others(m) : LET x == Lines(m)[i] IN \E y \in ToSet(o.shapes) : y.pts = Flat(x.pts) /\ Starts(y.id, x.name)
  /\ \A y \in ToSet(o.shapes) : \E x \in ToSet(Lines(m)) : y.pts = Flat(x.pts) /\ Starts(y.id, x.name)
CClauses(w, y, e) ==
  IF e.op = "write" THEN
    LET d == e.o.doc IN
    << <<"it is written: " \o e.o.err, e.o.err = "">>,
       <<"folders", [i \in DOMAIN d |-> d[i].name] = [i \in DOMAIN Folders(w.f, w.o) |-> Folders(w.f, w.o)[i].name]>>,
       <<"stops", OneSame(Named(d, "Stops"), StopsFolders(w.f, w.o), SameStops)>>,
       <<"routes", OneSame(Mids(d), RoutesFolders(w.f, w.o), SameRoutes)>>,
       <<"shapes", OneSame(Named(d, "Shapes"), ShapesFolders(w.f, w.o), SameShapes)>>,
       <<"styles", SameBag(e.o.styles, SetToSeq(Styles(w.f, w.o)))>> >>
  ELSE IF e.op = "file" THEN << <<"the document", e.o.err = "">> >>
  ELSE << <<"it is read: " \o e.o.err, e.o.err = "">>, <<"what is read", ReadOk(w.marks, e.o)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
