---------------------------- MODULE ServiceTrace ----------------------------
EXTENDS Service, TraceIO
VARIABLES c, l, s
Cal(p) == [start |-> p.start, end |-> p.end, dow |-> p.dow,
           exc |-> [d \in {p.exc[i][1] : i \in DOMAIN p.exc} |-> \E i \in DOMAIN p.exc : p.exc[i] = <<d, 1>>]]
CStart(case) == [per |-> [i \in DOMAIN case.per |-> Cal(case.per[i])], trips |-> case.trips, info |-> case.info]
CPost(w, e) == w
CClauses(w, y, e) ==
  IF e.op = "range" THEN <<
    <<"first and last date", e.o.range = FeedRange(w)>>,
    <<"first and last date with origins", e.o.range2 = FeedRange(w)>>,
    <<"origin of the first date", e.o.origin1 \in Origins(w, 1)>>,
    <<"origin of the last date", e.o.origin2 \in Origins(w, 2)>> >>
  ELSE IF e.op = "dates" THEN <<
    <<"dates listed", [i \in DOMAIN e.o.list |-> e.o.list[i].d] = [i \in 1..(e.to - e.from) |-> e.from + i - 1]>>,
    <<"calendars per date", \A i \in DOMAIN e.o.list : ToSet(e.o.list[i].per) = ActiveOn(w, e.o.list[i].d) /\ Len(e.o.list[i].per) = Cardinality(ActiveOn(w, e.o.list[i].d))>>,
    <<"trips per date", \A i \in DOMAIN e.o.list : e.o.list[i].trips = TripsOn(w, e.o.list[i].d)>>,
    <<"departures per date", \A i \in DOMAIN e.o.list : e.o.list[i].deps = DeparturesOn(w, e.o.list[i].d)>> >>
  ELSE <<
    <<"no service dates report", e.o.nodates = (IF HasDates(w) THEN 0 ELSE 1)>>,
    <<"expiration warning", IF Expires(w, e.today)
        THEN Len(e.o.expires) = 1 /\ e.o.expires[1].d = FeedRange(w)[2] /\ e.o.expires[1].origin \in Origins(w, 2)
        ELSE e.o.expires = <<>> >>,
    <<"future service warning", IF Future(w, e.today)
        THEN Len(e.o.future) = 1 /\ e.o.future[1].d = FeedRange(w)[1] /\ e.o.future[1].origin \in Origins(w, 1)
        ELSE e.o.future = <<>> >>,
    <<"no exceptions warning", e.o.noexc = (IF NoExceptions(w) THEN << FeedRange(w) >> ELSE <<>>)>>,
    <<"service gaps", LET G == IF e.gap < 1 THEN {} ELSE Gaps(w, e.today, e.gap)
                      IN ToSet(e.o.gaps) = G /\ Len(e.o.gaps) = Cardinality(G)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
