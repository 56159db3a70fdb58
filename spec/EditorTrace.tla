---------------------------- MODULE EditorTrace ----------------------------
EXTENDS Editor, TraceIO
VARIABLES c, l, s
CStart(case) == [feed |-> Feed0(case.feed), file |-> Places(case.feed), rest |-> "", where |-> case.where]
CPost(w, e) ==
  CASE e.op = "load" -> [w EXCEPT !.feed = Timed0(w.feed, e.o.at), !.rest = e.o.rest]
    [] e.op = "move" -> Move(w, e.p)
    [] e.op = "save" -> Save(w, w.where)
    [] e.op = "restart" -> Restart(w)
    [] OTHER -> w
Same(q, r) == Len(q) = Len(r) /\ ToSet(q) = ToSet(r)
CClauses(w, y, e) ==
  << <<"the stops are where they were put", Same(e.o.stops, Places(y.feed))>>,
     <<"the feed has the stops where they were saved", Same(e.o.file, y.file)>>,
     <<"nothing else of the feed changes", e.o.rest = y.rest>> >>
  \o (IF e.op \in {"load", "restart"} THEN <<>>
      ELSE << <<"the server runs on", e.o.alive>>,
              <<"one answer", e.o.status # 0 /\ (e.o.status = 200 => e.o.whole)>> >>)
  \o (CASE e.op = "move" -> << <<"a move is answered as it was done",
                                 IF CanMove(w.feed, e.p) THEN Fine(e.o) ELSE IF OnEarth(e.p) THEN Error(e.o) \/ ~e.o.said ELSE Error(e.o)>> >>
        [] e.op = "save" -> << <<"a save is answered as it was done", IF w.where = "file" THEN Fine(e.o) ELSE Error(e.o) \/ ~e.o.said>> >>
        [] e.op = "get" -> << <<"the answer to " \o e.kind, e.kind = "home" \/ Right(w.feed, e)>> >>
        [] OTHER -> <<>>)
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
