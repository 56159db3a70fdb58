--------------------------- MODULE TranslateTrace ---------------------------
EXTENDS Translate, TraceIO
VARIABLES c, l, s
CStart(case) == [old |-> case.old, main |-> case.main, tables |-> case.tables, usable |-> case.usable]
CPost(w, e) == w
EntrySet(q) == {q[i] : i \in DOMAIN q}
At(q, n) == SelectSeq(q, LAMBDA x : x.name = n)
\* the last of the repeated lines of an id counts
CClauses(w, y, e) ==
  LET o == e.o IN
  IF ~w.usable \/ ~Usable(w.old, w.main) THEN << <<"it is refused with a reason", o.err # "">>, <<"nothing is written", ~o.written>>, <<"the source stays as it was", o.same>> >>
  ELSE LET new == EntrySet(o.entries)  T(t) == At(o.tables, t.name) IN
  << <<"it is converted: " \o o.err, o.err = "">>,
     <<"the source stays as it was", o.same>>,
     <<"the tables", \A i \in DOMAIN w.tables : Len(T(w.tables[i])) = 1>>,
     <<"other tables are copied", o.copied>>,
     <<"columns and rows", \A i \in DOMAIN w.tables : LET t == w.tables[i] IN Len(T(t)) = 1 => LET n == T(t)[1] IN
           n.cols = t.cols /\ Len(n.rows) = Len(t.rows) /\ \A r \in DOMAIN t.rows : n.rows[r] = NewRow(w.old, w.main, t, r)>>,
     <<"translations are kept", \A i \in DOMAIN w.tables : \A r \in DOMAIN w.tables[i].rows : KeptRow(w.old, w.main, w.tables[i], new, r)>>,
     <<"no other translations", \A x \in new : Backed(w.old, w.main, w.tables, x)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
