----------------------------- MODULE StoreTrace -----------------------------
(* C01: histories of loading, editing, writing and loading again. *)
EXTENDS Store, TraceIO
VARIABLES c, l, s
CStart(case) == Empty
CPost(w, e) ==
  CASE e.op = "load" -> Loaded(e.rows, ToSet(e.o.errors))
    [] e.op = "new" -> [Empty EXCEPT !.errs = ToSet(e.o.errors)]
    [] e.op = "add" -> Add(w, e.f, e.r)
    [] e.op = "set" -> Set(w, e.f, e.key, e.c, e.v)
    [] e.op = "write" -> [w EXCEPT !.feed = AllTexts(e.o.tables)]
    [] e.op = "reload" -> Reloaded(w, ToSet(e.o.errors))
    [] OTHER -> w
SameEnts(w, E) == \A f \in Files : Same(f, {Row(f, x.r) : x \in ToSet(Of(E, f))}, w.tab[f]) /\ Len(Of(E, f)) = Cardinality(w.tab[f])
Differing(w, E) == {f \in Files : ~(Same(f, {Row(f, x.r) : x \in ToSet(Of(E, f))}, w.tab[f]) /\ Len(Of(E, f)) = Cardinality(w.tab[f]))}
Looks(w, E, what) == [i \in DOMAIN Order |-> <<what \o " " \o Order[i], Order[i] \notin Differing(w, E)>>]
CClauses(w, y, e) ==
  CASE e.op = "load" -> Looks(y, e.o.ents, "the schedule holds the rows of")
    [] e.op \in {"add", "set"} -> IF "ents" \in DOMAIN e.o THEN Looks(y, e.o.ents, "the edit leaves right") ELSE <<>>
    [] e.op = "write" ->
         [i \in DOMAIN Order |-> LET f == Order[i] IN
            <<"the table " \o f \o " holds the rows",
              IF f \in DOMAIN e.o.tables THEN GoodTable(f, e.o.tables[f], w.tab[f]) /\ Represented(f, e.o.tables[f], w.tab[f]) ELSE w.tab[f] = {}>>]
         \o << <<"no other tables", DOMAIN e.o.tables \subseteq Files>>,
               <<"the same tables again", w.feed = NoFeed \/ w.feed = AllTexts(e.o.tables)>> >>
    [] e.op = "reload" -> Looks(w, e.o.ents, "loading gives back")
         \o << <<"no new errors", ToSet(e.o.errors) \subseteq w.errs>> >>
    [] OTHER -> <<>>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
