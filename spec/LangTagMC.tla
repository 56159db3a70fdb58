----------------------------- MODULE LangTagMC ------------------------------
(* Reading a tag from left to right, subtag by subtag, with a finite memory:  *)
(* it accepts what some division into parts accepts, and the division is      *)
(* unique.                                                                    *)
EXTENDS LangTag
CONSTANT MaxSubtags
\* one subtag of each kind, and a second one of some
Kinds == << <<97, 97>>, <<98, 98>>, <<97, 98, 99>>, <<97, 98, 99, 100>>, <<49, 50, 51>>, <<49, 97, 98, 99>>, <<49, 97, 98, 100>>, <<97, 98, 99, 100, 101>>, <<97>>, <<49>>, <<120>>, <<97, 49, 98>>, <<>>, <<97, 98, 99, 100, 101, 102, 103, 104, 105>> >>
\* registered: the first of the lengths
Reg == { <<"language", <<97, 97>> >>, <<"language", <<97, 98, 99, 100, 101>> >>, <<"extlang", <<97, 98, 99>> >>, <<"script", <<97, 98, 99, 100>> >>,
         <<"region", <<97, 97>> >>, <<"region", <<49, 50, 51>> >>, <<"variant", <<49, 97, 98, 99>> >>, <<"variant", <<97, 98, 99, 100, 101>> >> }
VARIABLES q, st, known, seen
vars == <<q, st, known, seen>>
\* states: lang, ext1..ext3, script, region, variant, sing (singleton wants a subtag), more (in an extension), priv (x wants one), rest, bad
Init == q = <<>> /\ st = "start" /\ known = TRUE /\ seen = {}
In(kind, s) == known /\ <<kind, s>> \in Reg
New(s) == s \notin seen
Exts == {"lang", "ext1", "ext2"}
Read(s) ==
  CASE st = "bad" -> <<"bad", FALSE, seen>>
    [] st = "start" /\ s = X -> <<"alone", known, seen>>
    [] st = "alone" \/ st = "priv" \/ st = "rest" -> IF Alnums(s, 1, 8) THEN <<"rest", known, seen>> ELSE <<"bad", FALSE, seen>>
    [] st = "start" -> IF Alphas(s, 2, 3) THEN <<"lang", In("language", s), seen>> ELSE IF Alphas(s, 4, 8) THEN <<"ext3", In("language", s), seen>> ELSE <<"bad", FALSE, seen>>
    [] st = "sing" -> IF Alnums(s, 2, 8) THEN <<"more", known, seen>> ELSE <<"bad", FALSE, seen>>
    [] s = X -> <<"priv", known, seen>>
    [] IsSingleton(s) -> <<"sing", known /\ New(s), seen \cup {s}>>
    [] st = "more" -> IF Alnums(s, 2, 8) THEN <<"more", known, seen>> ELSE <<"bad", FALSE, seen>>
    [] st \in Exts /\ IsExtlang(s) -> <<IF st = "lang" THEN "ext1" ELSE IF st = "ext1" THEN "ext2" ELSE "ext3", In("extlang", s) /\ st = "lang", seen>>
    [] st \in Exts \cup {"ext3"} /\ IsScript(s) -> <<"script", In("script", s), seen>>
    [] st \in Exts \cup {"ext3", "script"} /\ IsRegion(s) -> <<"region", In("region", s), seen>>
    [] st \in Exts \cup {"ext3", "script", "region", "variant"} /\ IsVariant(s) -> <<"variant", In("variant", s) /\ New(s), seen \cup {s}>>
    [] OTHER -> <<"bad", FALSE, seen>>
Next == /\ Len(q) < MaxSubtags
        /\ \E i \in DOMAIN Kinds : LET r == Read(Kinds[i]) IN q' = Append(q, Kinds[i]) /\ st' = r[1] /\ known' = r[2] /\ seen' = r[3]
Spec == Init /\ [][Next]_vars
Complete == st \notin {"start", "alone", "sing", "priv", "bad"}
SameForm == q # <<>> => (WellFormedQ(q) <=> Complete)
SameWord == q # <<>> => (RegisteredQ(q, Reg) <=> Complete /\ known)
OneReading == q # <<>> => Cardinality(Readings(q)) <= 1
\* subtags are found again between the hyphens
Joined(z) == FlattenSeq([i \in DOMAIN z |-> IF i = 1 THEN z[i] ELSE <<45>> \o z[i]])
Again == q # <<>> => SubtagsOf(Joined(q)) = q
=============================================================================
