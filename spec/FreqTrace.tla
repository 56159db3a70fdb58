------------------------------ MODULE FreqTrace ------------------------------
EXTENDS Freq, TraceIO
VARIABLES c, l, s
CStart(case) == <<>>
CPost(z, e) == Do(z, e)
SameBag(q, r) == /\ Len(q) = Len(r)
                 /\ \A x \in ToSet(q) \cup ToSet(r) :
                      Cardinality({i \in DOMAIN q : q[i] = x}) = Cardinality({i \in DOMAIN r : r[i] = x})
CClauses(z, y, e) == <<
  <<"reports", SameBag(e.o.reports, Reports(e))>>,
  <<"periods", e.o.periods = y>>,
  <<"written periods", e.o.written = y>>,
  <<"start times", e.o.starts = Starts(y)>>,
  <<"runs", e.o.runs = Runs(y, e.rows0)>>,
  <<"overlap reports", e.o.overlaps = Overlaps(y)>>,
  <<"no other reports", e.o.others = 0>>
  >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
