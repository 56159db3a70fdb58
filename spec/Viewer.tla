------------------------------- MODULE Viewer -------------------------------
(* The schedule viewer: one request at a time, answered from the schedule.   *)
(* f = [stops, routes, trips, per, shapes, cols, rank]; trips have visits     *)
(* [stop, arr, dep, hs] (-1: no time) and at = the times of their visits      *)
(* (interpolated where none is given).  Numbers of stops etc. are positions.  *)
(* Coordinates are whole thousandths of a degree.                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Cal == INSTANCE Calendar
LOCAL Least(a, b) == IF a < b THEN a ELSE b
Limit == 5                         \* trips shown at a stop
Samples == 3                       \* trips shown of a pattern
PosOf(q, P(_)) == IF \E i \in DOMAIN q : P(q[i]) THEN CHOOSE i \in DOMAIN q : P(q[i]) ELSE 0
Stop1(f, id) == PosOf(f.stops, LAMBDA x : x.id = id)
Route1(f, id) == PosOf(f.routes, LAMBDA x : x.id = id)
Trip1(f, id) == PosOf(f.trips, LAMBDA x : x.id = id)
Rank(f, w) == CHOOSE i \in DOMAIN f.rank : f.rank[i] = w
\* d: a day, -1 for any day
Runs(f, t, d) == d = -1 \/ Cal!Active(f.per[f.trips[t].per].cal, d)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
\* ---- stops
Tuple(s) == <<s.id, s.name, s.lat, s.lon, s.type>>
Within(x, y) == \E i \in 0..(Len(y) - Len(x)) : SubSeq(y, i + 1, i + Len(x)) = x
Found(f, q) == {i \in DOMAIN f.stops : Within(q, f.stops[i].lowid) \/ Within(q, f.stops[i].lowname)}
Sq(n) == n * n
Far(s, lat, lon) == Sq(s.lat - lat) + Sq(s.lon - lon)
NearestOk(f, lat, lon, n, ans) ==     \* ans: positions in f.stops
  /\ Len(ans) = Least(n, Len(f.stops)) /\ IsInjective(ans)
  /\ \A i, j \in DOMAIN ans : i < j => Far(f.stops[ans[i]], lat, lon) <= Far(f.stops[ans[j]], lat, lon)
  /\ \A s \in DOMAIN f.stops : s \notin ToSet(ans) => \A i \in DOMAIN ans : Far(f.stops[ans[i]], lat, lon) <= Far(f.stops[s], lat, lon)
InBox(f, r) == {s \in DOMAIN f.stops : LET x == f.stops[s] IN x.lat <= r.n /\ x.lat >= r.s /\ x.lon <= r.e /\ x.lon >= r.w}
BoxOk(f, r, ans) == /\ IsInjective(ans) /\ ToSet(ans) \subseteq InBox(f, r) /\ Len(ans) = Least(r.limit, Cardinality(InBox(f, r)))
\* ---- next trips at a stop
Visits(f, s) == UNION {{<<t, i>> : i \in {i \in DOMAIN f.trips[t].visits : f.trips[t].visits[i].stop = s}} : t \in DOMAIN f.trips}
Eligible(f, s, time, d) == {v \in Visits(f, s) : f.trips[v[1]].at[v[2]] >= time /\ Runs(f, v[1], d)}
Headsign(f, t, i) == LET h == {k \in 1..i : f.trips[t].visits[k].hs # ""} IN IF h = {} THEN f.trips[t].hs ELSE f.trips[t].visits[Max(h)].hs
RouteName(r) == r.short \o (IF r.short # "" /\ r.long # "" THEN " - " ELSE "") \o r.long
TripName(f, t, i) == RouteName(f.routes[f.trips[t].route]) \o (IF Headsign(f, t, i) = "" THEN "" ELSE " (Direction: " \o Headsign(f, t, i) \o ")")
Timed(v) == v.arr # -1 \/ v.dep # -1
Shown(f, v) == LET t == f.trips[v[1]] IN <<t.at[v[2]], t.id, TripName(f, v[1], v[2]), f.per[t.per].id, Timed(t.visits[v[2]])>>
NextOk(f, s, time, d, ans) ==
  LET V == Eligible(f, s, time, d)  Shows(x) == Cardinality({v \in V : Shown(f, v) = x}) IN
  /\ Len(ans) = Least(Limit, Cardinality(V))
  /\ \A i \in DOMAIN ans : Count(ans, ans[i]) <= Shows(ans[i])
  /\ \A i, j \in DOMAIN ans : i < j => ans[i][1] <= ans[j][1]
  /\ ans # <<>> => \A v \in V : f.trips[v[1]].at[v[2]] < ans[Len(ans)][1] => Count(ans, Shown(f, v)) = Shows(Shown(f, v))
\* ---- patterns of a route
Stops1(f, t) == [i \in DOMAIN f.trips[t].visits |-> f.trips[t].visits[i].stop]
TripsOf(f, r) == {t \in DOMAIN f.trips : f.trips[t].route = r}
Patterns(f, r) == {Stops1(f, t) : t \in TripsOf(f, r)} \ {<<>>}
Start(f, t) == LET v == f.trips[t].visits[1] IN IF v.arr # -1 THEN v.arr ELSE v.dep
Sorted(S, F(_)) == LET q == SetToSeq(S) IN SortSeq([i \in DOMAIN q |-> F(q[i])], LAMBDA a, b : a < b)
PatternName(f, p) == f.stops[p[1]].name \o " to " \o f.stops[p[Len(p)]].name \o ", " \o ToString(Len(p)) \o " stops"
\* how many of n sorted times come before the sample
Skip(times, time) == LET n == Len(times)  early == Cardinality({i \in DOMAIN times : times[i] < time}) IN
  IF n <= Samples THEN 0 ELSE Least(early, n - Samples)
\* ans: [name, id, before, sample, after, special]
PatternOk(f, r, p, time, d, ans) ==
  LET T == {t \in TripsOf(f, r) : Stops1(f, t) = p /\ Runs(f, t, d)}
      times == Sorted(T, LAMBDA t : Start(f, t))  k == Skip(times, time) IN
  /\ ans.name = PatternName(f, p)
  /\ ans.before = k /\ Len(ans.sample) = Least(Samples, Len(times)) /\ ans.after = Len(times) - k - Len(ans.sample)
  /\ \A i \in DOMAIN ans.sample : ans.sample[i][1] = times[k + i] /\ \E t \in T : f.trips[t].id = ans.sample[i][2] /\ Start(f, t) = ans.sample[i][1]
  /\ IsInjective([i \in DOMAIN ans.sample |-> ans.sample[i][2]])
  /\ ans.special = (IF \E t \in T : f.trips[t].kind \notin {"", "0"} THEN 1 ELSE 0)
\* every pattern has one answer, in the order of their names
PatternsOk(f, r, time, d, ans) ==
  /\ Len(ans) = Cardinality(Patterns(f, r))
  /\ IsInjective([i \in DOMAIN ans |-> ans[i].id])
  /\ \A i, j \in DOMAIN ans : i < j => Rank(f, ans[i].name) <= Rank(f, ans[j].name)
  /\ \A p \in Patterns(f, r) : \E i \in DOMAIN ans : PatternOk(f, r, p, time, d, ans[i])
  /\ \A i \in DOMAIN ans : Cardinality({p \in Patterns(f, r) : PatternOk(f, r, p, time, d, ans[i])}) >= 1
\* as many answers of a kind as patterns that look that way
  /\ \A i \in DOMAIN ans : Cardinality({j \in DOMAIN ans : [ans[j] EXCEPT !.id = 0] = [ans[i] EXCEPT !.id = 0]})
       <= Cardinality({p \in Patterns(f, r) : PatternOk(f, r, p, time, d, ans[i])})
\* ---- routes
RoutesOk(f, ans) ==
  /\ Len(ans) = Len(f.routes) /\ IsInjective(ans) /\ ToSet(ans) = {<<r.id, r.short, r.long>> : r \in ToSet(f.routes)}
  /\ \A i \in 1..(Len(ans) - 1) : LET a == ans[i]  b == ans[i + 1] IN
       Rank(f, a[2]) < Rank(f, b[2]) \/ (a[2] = b[2] /\ Rank(f, a[3]) <= Rank(f, b[3]))

(*------------------------- the graph of a pattern -------------------------*)
(* One line for each trip of the route that visits the same stops, a minute *)
(* a pixel to the right (give or take rounding), each visit at the height   *)
(* of its stop.                                                             *)
SameStops(f, t) == {u \in DOMAIN f.trips : f.trips[u].route = f.trips[t].route /\ Stops1(f, u) = Stops1(f, t)}
GraphStart(f, t) == LET h == (Min({Start(f, u) : u \in SameStops(f, t)}) \div 3600) - 1 IN IF h < 0 THEN 0 ELSE IF h > 23 THEN 23 ELSE h
GivenAt(x) == SelectSeq([i \in DOMAIN x.visits |-> i], LAMBDA i : x.visits[i].arr # -1 /\ x.visits[i].dep # -1)
Apart(f, t) == \E i \in DOMAIN f.trips[t].visits : LET a == f.stops[f.trips[t].visits[i].stop]  b == f.stops[f.trips[t].visits[1].stop] IN a.lat # b.lat \/ a.lon # b.lon
GraphOk(f, t, height, a) ==
  LET hours == a[1]  lines == a[3]  off == GraphStart(f, t)
      px(n) == (n \div 60) - 60 * off + 20
      of(u) == {k \in DOMAIN lines : lines[k][1] = f.trips[u].id}
  IN /\ hours # <<>> /\ \A k \in DOMAIN hours : hours[k] = <<20 + 60 * (k - 1), (off + k - 1) % 24>>
     /\ Len(lines) = Cardinality(SameStops(f, t)) /\ \A u \in SameStops(f, t) : Cardinality(of(u)) = 1
     /\ (Apart(f, t) => a[2] = Len(f.trips[t].visits))
     /\ \A u \in SameStops(f, t) :
          LET x == f.trips[u]  g == GivenAt(x)  p == lines[CHOOSE k \in of(u) : TRUE][2] IN
          /\ Len(p) = 2 * Len(g)
          /\ \A k \in DOMAIN g : p[2 * k - 1][1] \in px(x.visits[g[k]].arr) - 1 .. px(x.visits[g[k]].arr) /\ p[2 * k][1] \in px(x.visits[g[k]].dep) - 1 .. px(x.visits[g[k]].dep) /\ p[2 * k - 1][2] = p[2 * k][2]
          /\ \A k \in 2 .. Len(p) : p[k - 1][2] <= p[k][2]
          /\ (g # <<>> /\ g[1] = 1 => p[1][2] = 20)
          /\ (Apart(f, t) /\ g # <<>> /\ g[Len(g)] = Len(x.visits) => height - 2 <= p[Len(p)][2] /\ p[Len(p)][2] <= height)
     \* a stop has one height for all the trips
     /\ \A u, v \in SameStops(f, t) :
          LET gu == GivenAt(f.trips[u])  gv == GivenAt(f.trips[v])
              pu == lines[CHOOSE k \in of(u) : TRUE][2]  pv == lines[CHOOSE k \in of(v) : TRUE][2]
          IN \A i \in DOMAIN gu, k \in DOMAIN gv : gu[i] = gv[k] => pu[2 * i][2] = pv[2 * k][2]

=============================================================================
