----------------------------- MODULE ValidTrace -----------------------------
(* C13: loading rows in several orders, validating, listing, writing, editing. *)
EXTENDS Valid, TraceIO
VARIABLES c, l, s
CStart(case) == Start0
Kinds(q) == {<<p.t, p.l, p.f, p.c>> : p \in ToSet(q)}
Facts(E) == [f \in Files |-> LET R == {Row(f, x.r) : x \in ToSet(Of(E, f))} IN IF f = "shapes.txt" THEN Placed(R) ELSE R]
TableFacts(T) == [f \in DOMAIN T \cap Files |-> LET R == TableRows(f, T[f]) IN [n |-> Len(T[f].rows), rows |-> IF f = "shapes.txt" THEN Placed(R) ELSE R]]
\* the schedule after the event's own change
Made(w, e) ==
  CASE e.op = "load" -> Change(w, Loaded(e.rows, {}))
    [] e.op = "set" -> Change(w, Set(w.s, e.f, e.key, e.c, e.v))
    [] e.op = "add" -> Change(w, Add(w.s, e.f, e.r))
    [] e.op = "reload" -> Change(w, w.s)
    [] e.op = "new" -> Change(w, Empty)
    [] OTHER -> w
Answers(e) ==   \* <<question, answer>>
  CASE e.op = "load" -> <<<<"load", Kinds(e.o.probs)>>>>
    [] e.op = "validate" -> <<<<"validate " \o e.args, Kinds(e.o.probs)>>>>
    [] e.op = "look" -> <<<<"look", Facts(e.o.ents)>>>>
    [] e.op = "write" -> <<<<"write", <<e.o.refused, TableFacts(e.o.tables)>>>>>>
    [] OTHER -> <<>>
Literal(e) ==
  CASE ~e.lit -> <<>>
    [] e.op = "validate" -> <<<<"validate " \o e.args, e.o.probs>>>>
    [] e.op = "look" -> <<<<"look", e.o.ents>>>>
    [] e.op = "write" -> <<<<"write", e.o.tables>>>>
    [] OTHER -> <<>>
RECURSIVE Tell(_, _, _), TellExact(_, _, _)
Tell(w, q, i) == IF i > Len(q) THEN w ELSE Tell(Ask(w, q[i][1], q[i][2]), q, i + 1)
TellExact(w, q, i) == IF i > Len(q) THEN w ELSE TellExact(AskExact(w, q[i][1], q[i][2]), q, i + 1)
CPost(w, e) == TellExact(Tell(Made(w, e), Answers(e), 1), Literal(e), 1)
Subject(e) == CASE e.op = "load" -> "the problems reported by loading" [] e.op = "validate" -> "the kinds of problems found"
  [] e.op = "look" -> "the entities" [] OTHER -> "the tables written"
CClauses(w, y, e) == LET m == Made(w, e) IN
  [i \in DOMAIN Answers(e) |-> <<Subject(e) \o " depend on the rows only", Agrees(m, Answers(e)[i][1], Answers(e)[i][2])>>]
  \o [i \in DOMAIN Literal(e) |-> <<Subject(e) \o " stay literally the same", AgreesExactly(m, Literal(e)[i][1], Literal(e)[i][2])>>]
  \o << <<"it ends", e.o.crash = "">> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
