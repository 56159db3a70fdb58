------------------------------ MODULE StopSeq ------------------------------
(* What validation says about the stop times of the trips of a feed.          *)
(* w = [type, stops, shape, trips, dup]:                                       *)
(*   type  : sequence of the routes' types                                     *)
(*   stops : positions along a meridian, in metres                             *)
(*   shape : sequence of [p (metres), d (tenths)]; <<>> for no shape           *)
(*   trips : sequence of [route, service, shaped, freq, rows], rows in order   *)
(*           of sequence number: [seq, arr, dep, stop, d, pk, do] with None    *)
(*           for absent times and types, NoDist for absent distances (tenths)  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
None == -1
NoDist == -1000000

MaxSpeed(type) == CASE type = 1 -> 150 [] type = 2 -> 300 [] type = 4 -> 80
                    [] type \in {5, 6, 7} -> 50 [] OTHER -> 100
Dist(w, a, b) == LET d == w.stops[a] - w.stops[b] IN IF d < 0 THEN -d ELSE d

\* ---------------------------------------------------------- each row by itself
RowDefects(r) ==
     (IF r.arr # None /\ r.dep # None /\ r.dep < r.arr THEN {"departs before it arrives"} ELSE {})
  \cup (IF r.arr # None /\ r.dep = None THEN {"no departure"} ELSE {})
  \cup (IF r.arr = None /\ r.dep # None THEN {"no arrival"} ELSE {})
  \cup (IF r.arr = None /\ r.dep = None /\ r.pk = 1 /\ r.do = 1 THEN {"useless"} ELSE {})
\* what is reported only when the row is read: the value is then left out
ReadDefects(r) == RowDefects(r) \cup (IF r.d # NoDist /\ r.d < 0 THEN {"negative distance"} ELSE {})
Far(r) == IF r.d < 0 THEN NoDist ELSE r.d

\* ------------------------------------------- time and speed: a walk along the trip
\* s = [pd, ps, back, fast]: departure from and index of the last stop reached in
\* time order; back: positions that are reached before that departure; fast: pairs
\* of stops with the time between them that need more than the maximal speed.
Start0 == [pd |-> 0, ps |-> 0, back |-> <<>>, fast |-> <<>>]
Near(x) == -18 <= x /\ x <= 18
Excess(w, t, a, b, dt) ==   \* > 0 if too fast
  IF dt = 0 THEN 3 * Dist(w, a, b) - 50 * MaxSpeed(w.type[t.route])
            ELSE 18 * Dist(w, a, b) - 5 * MaxSpeed(w.type[t.route]) * dt
TooFast(w, t, s, r) ==
  /\ s.ps # 0 /\ s.pd # None
  /\ LET dt == r.arr - s.pd IN
     \/ dt = 0 /\ (s.pd % 60 # 0 \/ Excess(w, t, s.ps, r.stop, 0) > 0)
     \/ dt > 0 /\ Excess(w, t, s.ps, r.stop, dt) > 0
Step(w, t, s, i) ==
  LET r == t.rows[i] IN
  IF r.arr = None THEN s
  ELSE LET f == IF TooFast(w, t, s, r)
                THEN Append(s.fast, <<s.ps, r.stop, r.arr - s.pd, Dist(w, s.ps, r.stop)>>) ELSE s.fast
       IN IF r.arr >= s.pd THEN [pd |-> r.dep, ps |-> r.stop, back |-> s.back, fast |-> f]
          ELSE [s EXCEPT !.back = Append(@, r.seq), !.fast = f]
Walk(w, t) == FoldLeft(LAMBDA s, i : Step(w, t, s, i), Start0, [i \in DOMAIN t.rows |-> i])
BackInTime(w, t) == Walk(w, t).back
Fast(w, t) == Walk(w, t).fast

\* ----------------------------------------------------------- travelled distances
\* A distance is sound if it exceeds the sound ones before it.
DistDefects(t) ==
  LET st(s, r) == IF Far(r) = NoDist THEN s
                  ELSE IF r.d > s.prev THEN [s EXCEPT !.prev = r.d]
                  ELSE [s EXCEPT !.bad = Append(@, <<r.d, IF r.d = s.prev THEN "W" ELSE "E">>)]
  IN FoldLeft(st, [prev |-> NoDist, bad |-> <<>>], t.rows).bad
ShapeEnd(w) == FoldSeq(LAMBDA q, m : IF q.d > m THEN q.d ELSE m, 0, w.shape)
BeyondShape(w, t) ==
  LET r == t.rows[Len(t.rows)] IN
  t.rows # <<>> /\ t.shaped /\ w.shape # <<>> /\ Far(r) # NoDist /\ r.d # 0 /\ r.d > ShapeEnd(w)

\* Position (as <<numerator, denominator>>) of the shape at a distance
At(sh, d) ==
  IF d <= sh[1].d THEN <<sh[1].p, 1>>
  ELSE IF d >= sh[Len(sh)].d THEN <<sh[Len(sh)].p, 1>>
  ELSE LET k == CHOOSE k \in 1..(Len(sh) - 1) : sh[k].d <= d /\ d < sh[k + 1].d
           ca == d - sh[k].d
           bc == sh[k + 1].d - d
       IN <<sh[k + 1].p * ca + sh[k].p * bc, ca + bc>>
\* The distance of the point of the shape that is compared with the stop
Clamp(sh, d) == IF d < sh[1].d THEN sh[1].d ELSE IF d > sh[Len(sh)].d THEN sh[Len(sh)].d ELSE d
OffShape(w, t) ==
  IF ~t.shaped \/ w.shape = <<>> \/ ShapeEnd(w) <= 0 THEN <<>>
  ELSE LET off(r) == /\ Far(r) # NoDist
                     /\ LET x == At(w.shape, r.d)
                            y == x[1] - w.stops[r.stop] * x[2]
                        IN y > 1000 * x[2] \/ -y > 1000 * x[2]
       IN SelectSeq([i \in DOMAIN t.rows |-> <<t.rows[i].stop, i>>], LAMBDA p : off(t.rows[p[2]]))

\* ------------------------------------------------------------- the trip as a whole
RepeatedSeq(t) == {r \in {t.rows[i].seq : i \in DOMAIN t.rows} :
                     Cardinality({i \in DOMAIN t.rows : t.rows[i].seq = r}) > 1}
Untimed(r) == r.arr = None /\ r.dep = None
NoFirst(t) == Len(t.rows) > 1 /\ Untimed(t.rows[1])
NoLast(t) == Len(t.rows) > 1 /\ Untimed(t.rows[Len(t.rows)])

\* Runs of stops all served at one moment, from its first to its last full time;
\* untimed stops between them count as well.
Full(r) == r.arr # None /\ r.dep # None
SameMoment(t) ==
  LET F == {i \in DOMAIN t.rows : Full(t.rows[i])}
      prev(i) == IF {j \in F : j < i} = {} THEN 0 ELSE Max({j \in F : j < i})
      joins(i) == /\ prev(i) # 0 /\ t.rows[i].arr = t.rows[i].dep
                  /\ t.rows[i].arr = t.rows[prev(i)].dep
      first == {i \in F : ~joins(i)}
      last(i) == LET nx == {j \in first : j > i} IN Max({j \in F : j >= i /\ \A k \in nx : j < k})
  IN {<<last(i) - i + 1, t.rows[last(i)].dep>> : i \in {i \in first : last(i) - i + 1 > 5}}

\* ----------------------------------------------------------- trips with each other
Visits(t) == [i \in DOMAIN t.rows |-> t.rows[i].stop]
SameTrip(a, b) == a.rows # <<>> /\ b.rows # <<>> /\ a.service = b.service /\ Visits(a) = Visits(b) /\ a.rows[1].arr = b.rows[1].arr
Classes(w) == {{j \in DOMAIN w.trips : SameTrip(w.trips[i], w.trips[j])} : i \in {i \in DOMAIN w.trips : w.trips[i].rows # <<>>}}
Extra(w) == FoldSet(LAMBDA x, n : n + Cardinality(x) - 1, 0, Classes(w))
ServedBy(w, s, type) == {t \in DOMAIN w.trips : w.type[w.trips[t].route] = type /\ s \in {w.trips[t].rows[i].stop : i \in DOMAIN w.trips[t].rows}}
MixedStops(w) == {s \in DOMAIN w.stops : ServedBy(w, s, 1) # {} /\ ServedBy(w, s, 3) # {}}
=============================================================================
