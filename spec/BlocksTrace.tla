----------------------------- MODULE BlocksTrace -----------------------------
EXTENDS Blocks, TraceIO, SequencesExt
VARIABLES c, l, s
Cal(p) == [start |-> p.start, end |-> p.end, dow |-> p.dow,
           exc |-> [d \in {p.exc[i][1] : i \in DOMAIN p.exc} |-> \E i \in DOMAIN p.exc : p.exc[i] = <<d, 1>>]]
CStart(case) == [per |-> [i \in DOMAIN case.per |-> Cal(case.per[i])], trips |-> case.trips]
CPost(w, e) == w
CClauses(w, y, e) ==
  LET got == {<<e.o.over[i][1], e.o.over[i][2]>> : i \in DOMAIN e.o.over} IN <<
    <<"every conflict is reported", Conflicts(w) \subseteq got>>,
    <<"only conflicts are reported", got \subseteq Conflicts(w)>>,
    <<"once each", Cardinality(got) = Len(e.o.over)>>,
    <<"block named", \A i \in DOMAIN e.o.over : e.o.blocks[i] = w.trips[e.o.over[i][1]].block>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
