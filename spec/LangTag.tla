------------------------------ MODULE LangTag ------------------------------
(* Language tags (BCP 47 / RFC 5646, sections 2.1 and 2.2.9).                *)
(* A tag is a sequence of code points; its subtags are what lies between     *)
(* hyphens.  The registry is a set of <<kind, subtag>> pairs, subtags in      *)
(* lower case, kinds being "language", "extlang", "script", "region",         *)
(* "variant", and "whole" for grandfathered tags.                             *)
EXTENDS Sequences, Integers, FiniteSets, SequencesExt, FiniteSetsExt, TLC
LowerC(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
LowerT(t) == [i \in DOMAIN t |-> LowerC(t[i])]
Letter(c) == c \in 97 .. 122
DigitC(c) == c \in 48 .. 57
\* what lies between hyphens, as a sequence of sequences
Cuts(t) == SetToSortSeq({0, Len(t) + 1} \cup {i \in DOMAIN t : t[i] = 45}, <)
SubtagsOf(t) == LET q == Cuts(t) IN [i \in 1 .. Len(q) - 1 |-> SubSeq(t, q[i] + 1, q[i + 1] - 1)]

Alphas(s, lo, hi) == Len(s) >= lo /\ Len(s) <= hi /\ \A i \in DOMAIN s : Letter(s[i])
Alnums(s, lo, hi) == Len(s) >= lo /\ Len(s) <= hi /\ \A i \in DOMAIN s : Letter(s[i]) \/ DigitC(s[i])
X == <<120>>
IsExtlang(s) == Alphas(s, 3, 3)
IsScript(s) == Alphas(s, 4, 4)
IsRegion(s) == Alphas(s, 2, 2) \/ (Len(s) = 3 /\ \A i \in DOMAIN s : DigitC(s[i]))
IsVariant(s) == Alnums(s, 5, 8) \/ (Alnums(s, 4, 4) /\ DigitC(s[1]))
IsSingleton(s) == Alnums(s, 1, 1) /\ s # X
Seg(q, a, b) == {i \in DOMAIN q : i > a /\ i <= b}                     \* positions after a up to b
IsExtensions(q, a, b) == /\ b > a => IsSingleton(q[a + 1])
                         /\ \A i \in Seg(q, a, b) : \/ IsSingleton(q[i]) /\ i < b /\ Alnums(q[i + 1], 2, 8)
                                                    \/ Alnums(q[i], 2, 8)
IsPrivate(q, a) == a = Len(q) \/ (q[a + 1] = X /\ Len(q) > a + 1 /\ \A i \in Seg(q, a + 1, Len(q)) : Alnums(q[i], 1, 8))
\* where each part of a tag ends: language, extended, script, region, variants, extensions
PartsOk(q, p) == /\ Alphas(q[1], 2, 8)
                 /\ p[1] >= 1 /\ (Len(q[1]) > 3 => p[1] = 1) /\ p[1] <= 4 /\ \A i \in Seg(q, 1, p[1]) : IsExtlang(q[i])
                 /\ p[2] \in {p[1], p[1] + 1} /\ \A i \in Seg(q, p[1], p[2]) : IsScript(q[i])
                 /\ p[3] \in {p[2], p[2] + 1} /\ \A i \in Seg(q, p[2], p[3]) : IsRegion(q[i])
                 /\ p[4] >= p[3] /\ \A i \in Seg(q, p[3], p[4]) : IsVariant(q[i])
                 /\ p[5] >= p[4] /\ IsExtensions(q, p[4], p[5])
                 /\ IsPrivate(q, p[5])
Splits(q) == LET n == Len(q) IN UNION {UNION {UNION {UNION {{<<a, b, c, d, e>> : e \in d .. n} : d \in c .. n} : c \in b .. (IF b < n THEN b + 1 ELSE n)} : b \in a .. (IF a < n THEN a + 1 ELSE n)} : a \in 1 .. (IF n < 4 THEN n ELSE 4)}
Readings(q) == {p \in Splits(q) : PartsOk(q, p)}
OnlyPrivate(q) == q[1] = X /\ IsPrivate(q, 0)
Irregular(t, reg) == <<"whole", t>> \in reg
WellFormedQ(q) == OnlyPrivate(q) \/ Readings(q) # {}
WellFormed(t, reg) == Irregular(LowerT(t), reg) \/ (t # <<>> /\ WellFormedQ(SubtagsOf(LowerT(t))))
Distinct(q, I) == \A i, j \in I : q[i] = q[j] => i = j
RegisteredQ(q, reg) ==
  \/ OnlyPrivate(q)
  \/ \E p \in Readings(q) :
       /\ <<"language", q[1]>> \in reg
       /\ p[1] <= 2 /\ \A i \in Seg(q, 1, p[1]) : <<"extlang", q[i]>> \in reg
       /\ \A i \in Seg(q, p[1], p[2]) : <<"script", q[i]>> \in reg
       /\ \A i \in Seg(q, p[2], p[3]) : <<"region", q[i]>> \in reg
       /\ \A i \in Seg(q, p[3], p[4]) : <<"variant", q[i]>> \in reg
       /\ Distinct(q, Seg(q, p[3], p[4]))
       /\ Distinct(q, {i \in Seg(q, p[4], p[5]) : Len(q[i]) = 1})
ValidTag(t, reg) == Irregular(LowerT(t), reg) \/ (t # <<>> /\ RegisteredQ(SubtagsOf(LowerT(t)), reg))
Verdict(t, reg) == IF ~WellFormed(t, reg) THEN "malformed" ELSE IF ~ValidTag(t, reg) THEN "unregistered" ELSE "valid"
=============================================================================
