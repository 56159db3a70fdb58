--------------------------- MODULE FactoryUseTrace ---------------------------
EXTENDS FactoryUse, TraceIO
VARIABLES c, l, s
CStart(case) == case.w
CPost(w, e) == w
Own(w, q) == SelectSeq(q, LAMBDA x : x[1] \in TableNames(w))
CClauses(w, y, e) ==
  IF e.op = "load" THEN <<
    <<"classes of the entities loaded", \A i \in DOMAIN e.o.kinds : LET k == e.o.kinds[i] IN
         ToSet(k.classes) = IF Loads(w, k.kind) THEN {ClassOf(w, k.kind)} ELSE {}>>,
    <<"rows of the extension's tables", ToSet(Own(w, e.o.log)) = RowsExpected(w) /\ Len(Own(w, e.o.log)) = Cardinality(RowsExpected(w))>>,
    <<"rows in order", \A i \in DOMAIN w.tables : (w.tables[i].there /\ w.tables[i].ord # NoOrder) =>
         LET q == SelectSeq(e.o.log, LAMBDA x : x[1] = w.tables[i].n) IN [j \in DOMAIN q |-> q[j][2]] = w.tables[i].rows>>,
    <<"loaded in order", \A i \in 1..(Len(e.o.log) - 1) : OrdOf(w, e.o.log[i][1]) <= OrdOf(w, e.o.log[i + 1][1])>>,
    <<"unknown files", ToSet(e.o.unknown) = Unknown(w) /\ Len(e.o.unknown) = Cardinality(Unknown(w))>>,
    <<"missing files", ToSet(e.o.missing) = Missing(w) /\ Len(e.o.missing) = Cardinality(Missing(w))>>,
    <<"unrecognised columns", ToSet(e.o.unrec) = Unrecognised(w) /\ Len(e.o.unrec) = Cardinality(Unrecognised(w))>>,
    <<"deprecated columns", ToSet(e.o.deprecated) = Deprecated(w) /\ Len(e.o.deprecated) = Cardinality(Deprecated(w))>>,
    <<"columns neither known nor deprecated", ToSet(e.o.unold) = UnknownOld(w) /\ Len(e.o.unold) = Cardinality(UnknownOld(w))>> >>
  ELSE IF e.op = "make" THEN <<
    <<"classes of the entities made", \A i \in DOMAIN e.o.kinds : ToSet(e.o.kinds[i].classes) = {ClassOf(w, e.o.kinds[i].kind)}>>,
    <<"columns written", \A i \in DOMAIN e.o.note : e.o.note[i][2] = (e.o.note[i][1] \in ToSet(w.note))>> >>
  ELSE <<
    <<"another factory's classes", \A i \in DOMAIN e.o.kinds : ToSet(e.o.kinds[i].classes) \subseteq {"base"}>>,
    <<"another factory's tables", e.o.log = <<>> >>,
    <<"another factory's unknown files", ToSet(e.o.unknown) = {w.tables[i].n : i \in {i \in DOMAIN w.tables : w.tables[i].there}}>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
