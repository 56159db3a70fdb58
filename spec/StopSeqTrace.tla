---------------------------- MODULE StopSeqTrace ----------------------------
EXTENDS StopSeq, TraceIO
VARIABLES c, l, s
CStart(case) == case.w
CPost(w, e) == w
Trip(w, e) == w.trips[e.trip]
\* between equal and a shade off
SpeedOk(w, t, got) == got = Fast(w, t)
CClauses(w, y, e) ==
  IF e.op = "row" THEN <<
    <<"defects of the row", ToSet(e.o.defects) = ReadDefects(Trip(w, e).rows[e.row]) /\ Len(e.o.defects) = Cardinality(ToSet(e.o.defects))>> >>
  ELSE IF e.op = "trip" THEN LET t == Trip(w, e) IN
    <<
    <<"repeated sequence numbers", ToSet(e.o.dupseq) = RepeatedSeq(t) /\ Len(e.o.dupseq) = Cardinality(RepeatedSeq(t))>>,
    <<"number of stops", e.o.few = (IF Len(t.rows) = 0 THEN <<0>> ELSE IF Len(t.rows) = 1 THEN <<1>> ELSE <<>>)>>,
    <<"headways without stops", e.o.nostopfreq = (t.rows = <<>> /\ t.freq)>> >>
    \o (IF RepeatedSeq(t) # {} THEN <<>> ELSE <<
    <<"time running backwards", e.o.back = BackInTime(w, t)>>,
    <<"too fast", e.o.fast = Fast(w, t)>>,
    <<"travelled distances", e.o.dist = DistDefects(t)>>,
    <<"last stop beyond the shape", e.o.beyond = BeyondShape(w, t)>>,
    <<"stops off the shape", e.o.off = [i \in DOMAIN OffShape(w, t) |-> <<OffShape(w, t)[i][1], Clamp(w.shape, t.rows[OffShape(w, t)[i][2]].d)>>]>>,
    <<"time of the first stop", e.o.nofirst = NoFirst(t)>>,
    <<"time of the last stop", e.o.nolast = NoLast(t)>>,
    <<"stops at one moment", ToSet(e.o.moment) = SameMoment(t) /\ Len(e.o.moment) = Cardinality(SameMoment(t))>> >>)
  ELSE <<
    <<"row defects again when validated", ToSet(e.o.defects) = UNION {UNION {RowDefects(w.trips[i].rows[k]) : k \in DOMAIN w.trips[i].rows} : i \in DOMAIN w.trips}>>,
    <<"nothing else reported", e.o.other = <<>> >>,
    <<"subway and bus at one stop", /\ {e.o.mixed[i].stop : i \in DOMAIN e.o.mixed} = MixedStops(w)
                                    /\ Len(e.o.mixed) = Cardinality(MixedStops(w))
                                    /\ \A i \in DOMAIN e.o.mixed : w.type[e.o.mixed[i].subway] = 1 /\ w.type[e.o.mixed[i].bus] = 3>>,
    <<"trips that look the same", IF \E i \in DOMAIN w.trips : RepeatedSeq(w.trips[i]) # {} THEN TRUE ELSE IF ~w.dup THEN e.o.same = <<>>
       ELSE /\ Len(e.o.same) = Extra(w)
            /\ \A i \in DOMAIN e.o.same : e.o.same[i][1] # e.o.same[i][2] /\ SameTrip(w.trips[e.o.same[i][1]], w.trips[e.o.same[i][2]])
            /\ Cardinality({e.o.same[i][2] : i \in DOMAIN e.o.same}) = Extra(w)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
