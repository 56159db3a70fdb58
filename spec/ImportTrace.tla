---------------------------- MODULE ImportTrace ----------------------------
EXTENDS Import, TraceIO
VARIABLES c, l, s
CStart(case) == case.feed
CPost(w, e) == w
Ids(q) == {x[1] : x \in ToSet(q)}
PtsOf(q, id) == (CHOOSE x \in ToSet(q) : x[1] = id)[2]
Own(f, t) == IF t.shape = 0 THEN "" ELSE f.shapes[t.shape].id
\* o = [ok, trips: <<id, shape id>>, shapes: <<id, points>>, rest, rest0]
CClauses(f, y, e) ==
  LET o == e.o
      got(i) == LET x == SelectSeq(o.trips, LAMBDA z : z[1] = f.trips[i].id) IN x[1][2]
      kept(i) == got(i) = Own(f, f.trips[i])
      changed(i) == ~kept(i)
      sure(i) == ~MayBeNone(f, f.trips[i].stops)
  IN
  IF ~o.ok THEN << <<"the import ends with a feed", FALSE>> >>
  ELSE IF \E i \in DOMAIN f.trips : Len(SelectSeq(o.trips, LAMBDA z : z[1] = f.trips[i].id)) # 1 THEN << <<"the trips are kept", FALSE>> >>
  ELSE
  << <<"the feed's own shapes are kept", \A i \in DOMAIN f.shapes : <<f.shapes[i].id, f.shapes[i].pts>> \in ToSet(o.shapes)>>,
     <<"one shape for an id", Cardinality(Ids(o.shapes)) = Len(o.shapes)>>,
     <<"nothing else changes", o.rest = o.rest0 /\ Len(o.trips) = Len(f.trips)>>,
     <<"trips that fit no line keep what they have", \A i \in DOMAIN f.trips : Gets(f, f.trips[i].stops) = "none" => kept(i)>>,
     <<"trips that fit a line or a path get it", \A i \in DOMAIN f.trips :
         (changed(i) => got(i) \in Ids(o.shapes) /\ Right(f, f.trips[i].stops, PtsOf(o.shapes, got(i)))) /\ (sure(i) => changed(i))>>,
     <<"the trips of a pattern have one shape", \A i, j \in DOMAIN f.trips :
         (Pat(f.trips[i]) = Pat(f.trips[j]) /\ (changed(i) \/ changed(j)) => got(i) = got(j))>>,
     <<"no shapes but those of trips and the feed's own", \A x \in ToSet(o.shapes) :
         x[1] \in {f.shapes[i].id : i \in DOMAIN f.shapes} \/ \E i \in DOMAIN f.trips : got(i) = x[1]>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
