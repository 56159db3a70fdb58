------------------------------ MODULE StoreMC ------------------------------
(* Every schedule reached by adding and editing entities is given back by    *)
(* writing its tables and loading them; writing that again changes nothing.  *)
EXTENDS Store
CONSTANTS Depth, Small
VARIABLES s, n, back
V(t, h, k) == [t |-> t, h |-> h, n |-> k]
Txt(t) == V(t, "", 0)
Nil == Txt("")
Exact == {"0x0.0p+0", "0x1.0p+0", "0x1.518p+16"}
Zeros == V("0", "0x0.0p+0", 0)
OneV == V("1", "0x1.0p+0", 1)
Stop(i, z, w) == [stop_id |-> Txt(i), stop_name |-> Txt("N"), stop_lat |-> OneV, stop_lon |-> OneV, zone_id |-> z, location_type |-> w]
StopRows == [f : {"stops.txt"}, r : {Stop(i, z, w) : i \in {"a", "0"}, z \in {Txt("0"), Nil}, w \in {Zeros, Nil}}]
TripRows == [f : {"trips.txt"}, r : {[route_id |-> Txt("r"), service_id |-> Txt("w"), trip_id |-> Txt("t"), direction_id |-> d] : d \in {Zeros, OneV, Nil}}]
TimeRows == [f : {"stop_times.txt"}, r : {[trip_id |-> Txt("t"), stop_id |-> Txt("a"), stop_sequence |-> q, arrival_time |-> x, departure_time |-> x] :
               q \in {Zeros, OneV}, x \in {V("00:00:00", "0x0.0p+0", 0), V("24:00:00", "0x1.518p+16", 0), Nil}}]
PointRows == [f : {"shapes.txt"}, r : {[shape_id |-> Txt("h"), shape_pt_lat |-> OneV, shape_pt_lon |-> OneV, shape_pt_sequence |-> V(ToString(k), ToString(k), k)] : k \in {0, 4, 9}}]
All == StopRows \cup TripRows \cup TimeRows \cup (IF Small THEN {} ELSE PointRows)
IsNew(f, r) == IF OwnId(f) # "" THEN \A x \in s.tab[f] : x.c[OwnId(f)] # r[OwnId(f)].t ELSE Row(f, r) \notin s.tab[f]

\* an abstract writer and reader of one table

CellText(x, c) == IF c = "shape_pt_sequence" THEN V(ToString(x.n), ToString(x.n), x.n)
                  ELSE IF c \notin DOMAIN x.c THEN Nil
                  ELSE IF c \in Numbers THEN V(x.c[c], CHOOSE h \in Exact : x.c[c] = "#" \o h, 0) ELSE Txt(x.c[c])
TableOf(f) == LET h == Required[f] \cup Columns(f, s.tab[f])  hq == SetToSeq(h)  q == SetToSeq(s.tab[f]) IN
              [head |-> hq, rows |-> [i \in DOMAIN q |-> [k \in DOMAIN hq |-> CellText(q[i], hq[k])]]]
Init == s = Empty /\ n = 0 /\ back = TRUE
AddOne == \E x \in All : IsNew(x.f, x.r) /\ s' = Add(s, x.f, x.r) /\ back' = TRUE
SetOne == \E v \in {Txt("0"), Txt("x"), Nil}, c \in {"zone_id", "note"} : s' = Set(s, "stops.txt", "a", c, v) /\ back' = TRUE
Store1 == LET T == [f \in {f \in Files : s.tab[f] # {}} |-> TableOf(f)] IN
          /\ back' = \A f \in DOMAIN T : GoodTable(f, T[f], s.tab[f]) /\ Represented(f, T[f], s.tab[f])
          /\ s' = [s EXCEPT !.feed = AllTexts(T)]
Next == n < Depth /\ n' = n + 1 /\ (AddOne \/ SetOne \/ Store1)
Spec == Init /\ [][Next]_<<s, n, back>>
GivenBack == back
Stable == s.feed # NoFeed => \A f \in DOMAIN s.feed : Texts(TableOf(f)) = s.feed[f]
OnePerId == \A f \in {"stops.txt", "trips.txt"} : \A x, y \in s.tab[f] : x.c[OwnId(f)] = y.c[OwnId(f)] => x = y
=============================================================================
