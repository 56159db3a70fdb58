------------------------------ MODULE ValuesMC ------------------------------
(* All texts over a small alphabet, grown letter by letter: the recognizers  *)
(* agree with the sets of texts their values print as, and conversions are   *)
(* inverse to each other.                                                    *)
EXTENDS Values, TLC
CONSTANTS MaxLen, Kind
VARIABLES t
Letters == CASE Kind = "time" -> {48, 53, 54, 58}
             [] Kind = "number" -> {48, 49, 57, 46, 43, 45, 101, 32}
             [] Kind = "date" -> {48, 49, 50, 51, 57}
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E ch \in Letters : t' = Append(t, ch)
Spec == Init /\ [][Next]_t
\* one and only one of: plain, otherwise readable, unreadable
Numbers == /\ PlainInt(t) => PlainFloat(t) /\ LenientInt(t)
           /\ PlainFloat(t) => LenientFloat(t)
           /\ LenientInt(t) => LenientFloat(t)
           /\ PlainInt(t) => Digits(Num(t)) = t
           /\ (PlainFloat(t) /\ Exact(t)) => (Within(t, 90) <=> Micro(t) \in -90000000..90000000)
           /\ PlainFloat(t) => Verdict("lat", TRUE, t) \in {"ok", "error"}
           /\ Verdict("nonneg", TRUE, t) = "ok" => Verdict("distance", TRUE, t) = "ok"
           /\ Verdict("enum3", FALSE, t) = "ok" => Blank(t) \/ LenientVal(t) \in 0..3
Times == TimeOK(t) <=> \E p \in {<<>>, <<48>>, <<48, 48>>} :     \* leading zeros are the only freedom
            LET h == TimeHours(t) IN h \in 1..3 /\ \A i \in 1..h : Digit(t[i]) /\
              (\E n \in {TimeVal(t)} : n >= 0 /\ TimeVal(TimeText(n)) = n /\
                 (LET d == Digits(n \div 3600) IN Len(p) + Len(d) = h /\ t = p \o d \o <<58>> \o Two((n \div 60) % 60) \o <<58>> \o Two(n % 60)))
Shape8 == Len(t) \in 7..9 /\ \A i \in 1..(Len(t) - 6) : Digit(t[i])
Safe == Shape8 /\ \A i \in (Len(t) - 5)..Len(t) : Digit(t[i]) \/ t[i] = 58
TimesInv == (Safe /\ t[Len(t) - 5] = 58 /\ t[Len(t) - 2] = 58 /\ Digit(t[Len(t)]) /\ Digit(t[Len(t) - 1]) /\ Digit(t[Len(t) - 3]) /\ Digit(t[Len(t) - 4]))
            => Times
\* the next day exists exactly once: a date that is well formed has a successor one greater
NextDay(d) == IF DayOf(d) < MonthDays(Year(d), Month(d)) THEN <<Year(d), Month(d), DayOf(d) + 1>>
              ELSE IF Month(d) < 12 THEN <<Year(d), Month(d) + 1, 1>> ELSE <<Year(d) + 1, 1, 1>>
Four(n) == LET g == Digits(n) IN [i \in 1..(4 - Len(g)) |-> 48] \o g
DateText(y, m, d) == Four(y) \o Two(m) \o Two(d)
Dates == (Len(t) = 8 /\ DateOK(t)) => LET n == NextDay(t) IN
   n[1] <= 9999 => /\ DateOK(DateText(n[1], n[2], n[3])) /\ DateVal(DateText(n[1], n[2], n[3])) = DateVal(t) + 1
                   /\ DateText(Year(t), Month(t), DayOf(t)) = t
Inv == CASE Kind = "number" -> Numbers [] Kind = "time" -> TimesInv [] Kind = "date" -> Dates
=============================================================================
