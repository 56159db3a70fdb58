---------------------------- MODULE UnusualTrace ----------------------------
EXTENDS Unusual, TraceIO
VARIABLES c, l, s
CStart(case) == case.w
CPost(w, e) == Do(w, e)
CClauses(w, y, e) == <<
  <<"marks", e.o.marks = Marks(y)>>,
  <<"trips and their stops", e.o.stops = [j \in DOMAIN y.trips |-> y.trips[j].stops]>>,
  <<"marks written", "written" \in DOMAIN e.o => e.o.written = Marks(y)>>,
  <<"input left alone", "input" \in DOMAIN e.o => e.o.input = Marks(w)>>
  >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
