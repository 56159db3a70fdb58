---------------------------- MODULE FactoryTrace ----------------------------
EXTENDS Factory, TraceIO
VARIABLES c, l, s
CStart(case) == <<>>
Op(e) == IF e.op \in {"addmap", "updmap"} THEN [e EXCEPT !.m = [@ EXCEPT !.has = ToSet(@)]] ELSE e
CPost(fs, e) == Do(fs, Op(e))
Same(f, o) == <<
  <<"known files", ToSet(o.known) = {x.n : x \in f.files} /\ Len(o.known) = Cardinality(f.files)>>,
  <<"loading order", IsLoadingOrder(f, o.order)>>,
  <<"class by name", \A i \in DOMAIN o.byname : o.byname[i][2] = ByName(f, o.byname[i][1])>>,
  <<"class by file", \A i \in DOMAIN o.byfile : o.byfile[i][2] = ByFile(f, o.byfile[i][1])>>,
  <<"required", \A i \in DOMAIN o.req : o.req[i][2] = Required(f, o.req[i][1])>> >>
CClauses(fs, gs, e) ==
  <<<<"refused", e.op # "new" => e.o.refused = Refused(fs[e.f], Op(e))>>>>
  \o FlattenSeq([k \in DOMAIN gs |-> [i \in DOMAIN Same(gs[k], e.o.all[k]) |->
        <<(IF e.op # "new" /\ k # e.f THEN "another factory's " ELSE "") \o Same(gs[k], e.o.all[k])[i][1], Same(gs[k], e.o.all[k])[i][2]>>]])
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
