----------------------------- MODULE ViewerAns -----------------------------
(* The answers that a request may get: p has its parameters, each a text, a  *)
(* number, missing ("none") or malformed ("bad"); o the answer.               *)
EXTENDS Viewer
Exc(p) == [d \in {p.exc[i][1] : i \in DOMAIN p.exc} |-> \E i \in DOMAIN p.exc : p.exc[i] = <<d, 1>>]
Feed0(g) == [g EXCEPT !.per = [i \in DOMAIN g.per |-> LET p == g.per[i] IN
                  [id |-> p.id, cal |-> [start |-> p.start, end |-> p.end, dow |-> p.dow, exc |-> Exc(p)]]]]
Timed0(w, at) == [w EXCEPT !.trips = [t \in DOMAIN w.trips |-> [w.trips[t] EXCEPT !.at = at[t]]]]
Error(o) == o.status >= 400 /\ o.status < 600
Fine(o) == o.status = 200 /\ o.whole
Is(p, k) == p.k = k
Num(ps) == \A p \in ps : Is(p, "num")
Or(p, n) == IF Is(p, "none") THEN n ELSE p.n
Day(p) == Or(p, -1)
Rows(q) == {<<x[1], x[2]>> : x \in ToSet(q)}
Id(p) == IF Is(p, "text") THEN p.t ELSE "?"           \* no object has this id
Ans(q, f) == [i \in DOMAIN q |-> PosOf(f.stops, LAMBDA x : Tuple(x) = q[i])]
Known(q, f) == \A i \in DOMAIN q : Ans(q, f)[i] # 0
\* the answer is right / has to be an error / may be anything (as long as there is one)
Right(w, e) ==
  LET p == e.p  o == e.o  a == o.ans IN
  CASE e.kind = "home" -> Fine(o) /\ a = <<w.agency, Min({x.lat : x \in ToSet(w.stops)}), Min({x.lon : x \in ToSet(w.stops)}),
                                            Max({x.lat : x \in ToSet(w.stops)}), Max({x.lon : x \in ToSet(w.stops)}), w.key, w.host, "true">>
    [] e.kind = "routes" -> Fine(o) /\ RoutesOk(w, a)
    [] e.kind = "routerow" -> IF Route1(w, Id(p.route)) = 0 THEN Error(o) ELSE Fine(o) /\ Rows(a) = Rows(w.routes[Route1(w, Id(p.route))].row)
    [] e.kind = "triprows" -> LET t == Trip1(w, Id(p.trip)) IN
         IF t = 0 THEN Error(o) \/ o.null
         ELSE /\ Fine(o) /\ Len(a) = 2 /\ a[1][1] = "trips.txt" /\ Rows(a[1][2]) = Rows(w.trips[t].row)
              /\ a[2][1] = "routes.txt" /\ Rows(a[2][2]) = Rows(w.routes[w.trips[t].route].row)
    [] e.kind = "tripstoptimes" -> LET t == Trip1(w, Id(p.trip)) IN
         IF t = 0 THEN Error(o) \/ o.null
         ELSE LET v == w.trips[t].visits IN
              Fine(o) /\ a = <<[i \in DOMAIN v |-> Tuple(w.stops[v[i].stop])], [i \in DOMAIN v |-> v[i].arr], [i \in DOMAIN v |-> v[i].dep]>>
    [] e.kind = "tripshape" -> LET t == Trip1(w, Id(p.trip)) IN
         IF t = 0 THEN Error(o) \/ o.null
         ELSE LET x == w.trips[t]  r == w.routes[x.route] IN
              /\ Fine(o) /\ a[1] = (IF x.shape # 0 THEN w.shapes[x.shape] ELSE [i \in DOMAIN x.visits |-> <<w.stops[x.visits[i].stop].lat, w.stops[x.visits[i].stop].lon>>])
              /\ a[2] = (IF r.color = "" THEN "" ELSE "#" \o r.color)
    [] e.kind = "neareststops" ->
         IF ~Num({p.lat, p.lon, p.limit}) THEN Error(o)
         ELSE IF p.limit.n < 1 THEN Error(o) \/ (Fine(o) /\ a = <<>>)
         ELSE Fine(o) /\ Known(a, w) /\ NearestOk(w, p.lat.n, p.lon.n, p.limit.n, Ans(a, w))
    [] e.kind = "boundboxstops" ->
         IF ~Num({p.n, p.e, p.s, p.w, p.limit}) THEN Error(o)
         ELSE IF p.limit.n < 1 THEN Error(o) \/ (Fine(o) /\ a = <<>>)
         ELSE Fine(o) /\ Known(a, w) /\ BoxOk(w, [n |-> p.n.n, e |-> p.e.n, s |-> p.s.n, w |-> p.w.n, limit |-> p.limit.n], Ans(a, w))
    [] e.kind = "stopsearch" ->
         IF ~Is(p.q, "text") THEN Error(o)
         ELSE Fine(o) /\ Known(a, w) /\ IsInjective(Ans(a, w)) /\ ToSet(Ans(a, w)) = Found(w, p.q.low)
    [] e.kind = "stoptrips" -> LET x == Stop1(w, Id(p.stop)) IN
         IF x = 0 \/ Is(p.time, "bad") THEN Error(o)
         ELSE IF Is(p.date, "bad") THEN Error(o) \/ o.status = 200
         ELSE Fine(o) /\ NextOk(w, x, Or(p.time, 0), Day(p.date), a)
    [] e.kind = "routepatterns" -> LET r == Route1(w, Id(p.route)) IN
         IF r = 0 \/ Is(p.time, "bad") THEN Error(o)
         ELSE IF Is(p.date, "bad") THEN Error(o) \/ o.status = 200
         ELSE Fine(o) /\ PatternsOk(w, r, Or(p.time, 0), Day(p.date), a)
    [] e.kind = "graph" -> IF Trip1(w, Id(p.trip)) = 0 \/ Is(p.height, "bad") THEN Error(o)
                         ELSE Fine(o) /\ GraphOk(w, Trip1(w, Id(p.trip)), Or(p.height, 300), a)
    [] OTHER -> Error(o)
=============================================================================
