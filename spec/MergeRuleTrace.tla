--------------------------- MODULE MergeRuleTrace ---------------------------
(* C16: entities are unified exactly by the rules, with the right values,     *)
(* reports and counts.                                                        *)
EXTENDS MergeObs
VARIABLES c, l, s
CStart(case) == [low |-> case.low]
CPost(w, e) == w
Ks(e, ok) == SelectSeq(Kinds, LAMBDA k : k \in RanAll(e, ok))
Ruled == {"agency", "stop", "route", "fare", "shape"}
CClauses(w, y, e) ==
  IF e.op # "merge" THEN <<>>
  ELSE
  LET o == e.o  A == Sched(o.a0)  B == Sched(o.b0)  M == Sched(o.m)  m == Maps(o)  ks == Ks(e, o.ok)
      u == Unified(A, B, w.low, Par(e))  ran == RanAll(e, o.ok)  p == ToSet(o.probs)
      Full(k) == OneEach(A, B, m, k) IN
  [i \in DOMAIN ks |-> <<"unified exactly by the rule: " \o ks[i], ~Full(ks[i]) \/ Met(m, ks[i]) = u[ks[i]]>>]
  \o [i \in DOMAIN ks |-> <<"distinct ids otherwise: " \o ks[i], ~Full(ks[i]) \/ (Apart(m, ks[i]) /\ KeptIds(A, B, m, ks[i]))>>]
  \o [i \in DOMAIN ks |-> <<"values of the unified: " \o ks[i], ks[i] = "service" \/ ~Full(ks[i]) \/ ~Apart(m, ks[i]) \/ (ks[i] = "stop" /\ ~GoodZones(A, B, m)) \/ MetValues(A, B, M, m, ks[i])>>]
  \o [i \in DOMAIN ks |-> <<"conflicts are reported: " \o ks[i],
        LET r == {x.id : x \in {x \in p : x.cls = "SameIdButNotMerged" /\ x.k = ks[i]}} IN
        r = IF ks[i] \in Ruled THEN Conflicts(A, B, u, ks[i]) ELSE {}>>]
  \o << <<"each report once", \A i, j \in DOMAIN o.probs : o.probs[i] = o.probs[j] => i = j>>,
        <<"duplication is reported", \A k \in {"service", "trip"} : (\E x \in p : x.cls = "MergeNotImplemented" /\ x.k = k) <=> k \in ran>>,
        <<"unions of fare rules are reported", (\E x \in p : x.cls = "FareRulesBroken") <=> ("rule" \in ran /\ (A.tab["fare_rules.txt"] # {} \/ B.tab["fare_rules.txt"] # {}))>>,
        <<"nothing else is reported", \A x \in p : x.cls \in {"SameIdButNotMerged", "MergeNotImplemented", "FareRulesBroken"} \/ (x.cls = "CalendarsNotDisjoint" /\ ~o.ok)>>,
        <<"counts", ~o.ok \/ \A k \in ran \cap Ruled : \E x \in ToSet(o.stats) : x[1] = k /\ x[2] = Counts(A, B, u, k)>>,
        <<"counts of transfers", ~o.ok \/ "transfer" \notin ran \/
           LET b == Cardinality(B.tab["transfers.txt"]) IN <<"transfer", <<0, Cardinality(M.tab["transfers.txt"]) - b, b>>>> \in ToSet(o.stats)>>,
        <<"no counts of what is never unified", ~o.ok \/ {x[1] : x \in ToSet(o.stats)} = ran \cap (Ruled \cup {"transfer"})>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
