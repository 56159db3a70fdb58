------------------------------- MODULE Valid -------------------------------
(* What a schedule tells is a function of the rows it was made of: asking    *)
(* (validating, listing, writing) changes nothing, and neither the order of  *)
(* the rows nor what was asked or undone before makes a difference.          *)
(* The state is Store's, with the answers given so far: said, the answers as *)
(* facts about sets of rows, and exact, the literal answers of this very     *)
(* schedule since it was last changed.                                       *)
EXTENDS Store
Start0 == [s |-> Empty, said |-> [q \in {} |-> {}], exact |-> [q \in {} |-> {}]]
Recall(S, q) == IF q \in DOMAIN S THEN S[q] ELSE {}
\* a question about the rows, its answer and its literal answer
Ask(w, q, a) == [w EXCEPT !.said = (q :> (Recall(@, q) \cup {<<w.s.tab, a>>})) @@ @]
AskExact(w, q, x) == [w EXCEPT !.exact = (q :> (Recall(@, q) \cup {x})) @@ @]
Agrees(w, q, a) == \A m \in Recall(w.said, q) : m[1] = w.s.tab => m[2] = a
AgreesExactly(w, q, x) == Recall(w.exact, q) \subseteq {x}
Change(w, t) == [w EXCEPT !.s = t, !.exact = [q \in {} |-> {}]]
=============================================================================
