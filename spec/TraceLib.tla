------------------------------ MODULE TraceLib ------------------------------
(* Trace validation with total, named verdicts.  The recorded cases are run  *)
(* one after another through the specification: Start(c) is the              *)
(* specification state before case c, Post(s, e) the state after event e,    *)
(* and Clauses(s, t, e) a sequence of <<name, truth value>> comparing the     *)
(* recorded observation e.o with what the specification allows.  A case is    *)
(* rejected at the first event with a false clause, and the next one begins.  *)
EXTENDS TLC, Sequences, Naturals
CONSTANTS Start(_), Post(_, _), Clauses(_, _, _), TheCases
VARIABLES c, l, s

False(cl) == {cl[i][1] : i \in {j \in DOMAIN cl : ~cl[j][2]}}

TraceInit == /\ c = 1 /\ l = 1
             /\ s = IF Len(TheCases) >= 1 THEN Start(TheCases[1]) ELSE <<>>

NextCase == /\ c' = c + 1 /\ l' = 1
            /\ s' = IF c + 1 <= Len(TheCases) THEN Start(TheCases[c + 1]) ELSE <<>>
            /\ (c = Len(TheCases)) => PrintT(<<"DONE", c>>)

TraceNext ==
  /\ c <= Len(TheCases)
  /\ IF l > Len(TheCases[c].ev)
     THEN NextCase
     ELSE LET e == TheCases[c].ev[l]
              t == Post(s, e)
              bad == False(Clauses(s, t, e))
          IN IF bad = {}
             THEN l' = l + 1 /\ c' = c /\ s' = t
             ELSE PrintT(<<"FAIL", TheCases[c].id, l, bad>>) /\ NextCase
=============================================================================
