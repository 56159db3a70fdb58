----------------------------- MODULE FilesTrace -----------------------------
EXTENDS Files, TraceIO
VARIABLES c, l, s
CStart(case) == [files |-> ToSet(case.files)]
CPost(w, e) == w
CClauses(w, y, e) ==
  << <<"the server runs on", e.o.alive>>,
     <<"one answer", e.o.status # 0 /\ (e.o.status = 200 => e.o.whole)>>,
     <<"nothing outside the directory is shown", e.o.body \in w.files \cup {"", "?"} /\ ~e.o.secret>>,
     <<"the answer to the request", Answer(w.files, e.segs, e.raw, e.o)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
