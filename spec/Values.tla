------------------------------- MODULE Values -------------------------------
(* Texts as sequences of code points, and for each kind of value which texts *)
(* are well formed and what they denote.                                     *)
EXTENDS Integers, Sequences, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n
Digit(ch) == ch >= 48 /\ ch <= 57
Space(ch) == ch \in {32, 9, 10, 11, 12, 13}
Ascii(t) == \A i \in DOMAIN t : t[i] < 128
AllDigits(t) == \A i \in DOMAIN t : Digit(t[i])
Tail2(t, n) == SubSeq(t, n, Len(t))

RECURSIVE Strip(_)
Strip(t) == IF t = <<>> THEN t ELSE IF Space(t[1]) THEN Strip(Tail(t))
            ELSE IF Space(t[Len(t)]) THEN Strip(SubSeq(t, 1, Len(t) - 1)) ELSE t
RECURSIVE Nat10(_, _)
Nat10(t, acc) == IF t = <<>> THEN acc ELSE IF acc > 100000000 THEN 1000000000 ELSE Nat10(Tail(t), 10 * acc + (t[1] - 48))
Num(t) == Nat10(t, 0)                       \* 1000000000 for whatever has more than nine digits
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Two(n) == IF n < 10 THEN <<48, 48 + n>> ELSE Digits(n)
Unsigned(t) == IF t # <<>> /\ t[1] \in {43, 45} THEN Tail(t) ELSE t
Negative(t) == t # <<>> /\ t[1] = 45
Low(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE ch
Lower(t) == [i \in DOMAIN t |-> Low(t[i])]
Blank(t) == Strip(t) = <<>>

(* ------------------------------ times *)
\* H:MM:SS, HH:MM:SS or HHH:MM:SS
TimeHours(t) == Len(t) - 6
TimeOK(t) == LET h == TimeHours(t) IN
  /\ h \in 1..3
  /\ \A i \in 1..h : Digit(t[i])
  /\ t[h + 1] = 58 /\ t[h + 4] = 58
  /\ Digit(t[h + 2]) /\ t[h + 2] <= 53 /\ Digit(t[h + 3])
  /\ Digit(t[h + 5]) /\ t[h + 5] <= 53 /\ Digit(t[h + 6])
TimeVal(t) == LET h == TimeHours(t) IN
  3600 * Num(SubSeq(t, 1, h)) + 60 * Num(SubSeq(t, h + 2, h + 3)) + Num(SubSeq(t, h + 5, h + 6))
TimeText(n) == Two(n \div 3600) \o <<58>> \o Two((n \div 60) % 60) \o <<58>> \o Two(n % 60)

(* ------------------------------ dates *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Year(t) == Num(SubSeq(t, 1, 4))
Month(t) == Num(SubSeq(t, 5, 6))
DayOf(t) == Num(SubSeq(t, 7, 8))
DateOK(t) == /\ Len(t) = 8 /\ AllDigits(t) /\ Year(t) >= 1 /\ Month(t) \in 1..12
             /\ DayOf(t) \in 1..MonthDays(Year(t), Month(t))
RECURSIVE BeforeMonth(_, _)
BeforeMonth(y, m) == IF m = 1 THEN 0 ELSE BeforeMonth(y, m - 1) + MonthDays(y, m - 1)
\* days since 1 January of the year 1, which is day 1
DateVal(t) == LET y == Year(t) - 1 IN
  365 * y + y \div 4 - y \div 100 + y \div 400 + BeforeMonth(Year(t), Month(t)) + DayOf(t)
CalendarYears == 1900..2100     \* the years a calendar may name

(* ------------------------------ numbers *)
PlainInt(t) == t # <<>> /\ AllDigits(t) /\ (t[1] # 48 \/ Len(t) = 1)
LenientInt(t) == LET u == Unsigned(Strip(t)) IN u # <<>> /\ AllDigits(u)
LenientVal(t) == LET s == Strip(t) IN IF Negative(s) THEN -Num(Unsigned(s)) ELSE Num(Unsigned(s))
Small(t) == Len(Strip(t)) <= 9
Dots(t) == {i \in DOMAIN t : t[i] = 46}
\* [+-]digits[.digits]
PlainFloat(t) == LET u == Unsigned(t) IN
  \/ u # <<>> /\ AllDigits(u)
  \/ /\ Cardinality(Dots(u)) = 1
     /\ LET d == CHOOSE i \in Dots(u) : TRUE IN
        d > 1 /\ d < Len(u) /\ AllDigits(SubSeq(u, 1, d - 1)) /\ AllDigits(Tail2(u, d + 1))
\* further forms that denote a number for a lenient reader
Mantissa(u) == /\ Cardinality(Dots(u)) <= 1 /\ \A i \in DOMAIN u : Digit(u[i]) \/ u[i] = 46
               /\ \E i \in DOMAIN u : Digit(u[i])
LenientFloat(t) == LET u == Lower(Unsigned(Strip(t)))
                       es == {i \in DOMAIN u : u[i] = 101} IN
  \/ Mantissa(u)
  \/ Cardinality(es) = 1 /\ LET e == CHOOSE i \in es : TRUE
                                x == Unsigned(Tail2(u, e + 1)) IN
       Mantissa(SubSeq(u, 1, e - 1)) /\ x # <<>> /\ AllDigits(x)
  \/ u \in {<<110, 97, 110>>, <<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}
\* a plain number in millionths, for at most three digits before and six after the point
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
FloatParts(t) == LET u == Unsigned(t) IN
  IF Dots(u) = {} THEN <<u, <<>>>>
  ELSE LET d == CHOOSE i \in Dots(u) : TRUE IN <<SubSeq(u, 1, d - 1), Tail2(u, d + 1)>>
Exact(t) == Len(FloatParts(t)[1]) <= 3 /\ Len(FloatParts(t)[2]) <= 6
Micro(t) == LET p == FloatParts(t)
                m == Num(p[1]) * 1000000 + Num(p[2]) * Pow10(6 - Len(p[2]))
            IN IF Negative(t) THEN -m ELSE m
\* |number| <= n, for any length of plain number
Within(t, n) == LET p == FloatParts(t)
                    z == {i \in DOMAIN p[1] : p[1][i] # 48}
                    w == IF z = {} THEN <<>> ELSE Tail2(p[1], CHOOSE i \in z : \A j \in z : i <= j)
                IN /\ Len(w) <= 4
                   /\ Num(w) < n \/ (Num(w) = n /\ \A i \in DOMAIN p[2] : p[2][i] = 48)

(* ------------------------------ colours *)
Hex(ch) == Digit(ch) \/ Low(ch) \in 97..102
HexVal(ch) == IF Digit(ch) THEN ch - 48 ELSE Low(ch) - 87
ColorOK(t) == Len(t) = 6 /\ \A i \in 1..6 : Hex(t[i])
Byte(t, i) == 16 * HexVal(t[i]) + HexVal(t[i + 1])
\* brightness in thousandths, 0 (black) to 255000 (white)
Lum(t) == 299 * Byte(t, 1) + 587 * Byte(t, 3) + 114 * Byte(t, 5)
White == <<102, 102, 102, 102, 102, 102>>
Black == <<48, 48, 48, 48, 48, 48>>
LowContrast(a, b) == 7 * Abs(Lum(a) - Lum(b)) < 510000

(* ------------------------------ names and addresses *)
HasPrefix(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
Http == <<104, 116, 116, 112, 58, 47, 47>>
Https == <<104, 116, 116, 112, 115, 58, 47, 47>>
UrlOK(t) == HasPrefix(t, Http) \/ HasPrefix(t, Https)
\* something, one @, something, a dot, something
EmailOK(t) == \E i \in DOMAIN t : \E d \in DOMAIN t :
  /\ t[i] = 64 /\ \A j \in 1..(i - 1) : t[j] # 64
  /\ i > 1 /\ d > i + 1 /\ d < Len(t) /\ t[d] = 46
  /\ \A j \in (i + 1)..(d + 1) : t[j] # 64
Languages == {<<97,98>>,<<97,102>>,<<97,114>>,<<98,101>>,<<98,103>>,<<98,110>>,<<99,97>>,<<99,115>>,<<100,97>>,<<100,101>>,<<101,108>>,<<101,110>>,
  <<101,115>>,<<101,116>>,<<101,117>>,<<102,97>>,<<102,105>>,<<102,114>>,<<103,97>>,<<104,101>>,<<104,105>>,<<104,114>>,<<104,117>>,<<105,100>>,
  <<105,115>>,<<105,116>>,<<106,97>>,<<107,111>>,<<108,116>>,<<108,118>>,<<110,108>>,<<110,111>>,<<112,108>>,<<112,116>>,<<114,111>>,<<114,117>>,
  <<115,107>>,<<115,108>>,<<115,113>>,<<115,118>>,<<116,104>>,<<116,114>>,<<117,107>>,<<118,105>>,<<122,104>>,<<122,117>>}
NoLanguages == {<<120,120>>, <<122,122>>, <<113,113>>, <<97,49>>}
\* "yes", "no", "any" (not decided here)
LangOK(t) == IF Lower(t) \in Languages THEN "yes" ELSE IF Len(t) # 2 \/ Lower(t) \in NoLanguages THEN "no" ELSE "any"

(* ------------------------------ verdicts *)
(* Verdict of a text under a kind: "ok", "missing" (a required value that is *)
(* blank), "error", "warning", "reported" (at either level), "any".          *)
In(t, ok, bad) == IF Blank(t) THEN "ok" ELSE IF ok THEN "ok" ELSE bad
Signs(t) == \A i \in DOMAIN t : Digit(t[i]) \/ Space(t[i]) \/ t[i] \in {43, 45}
Enum(t, allowed) == IF ~Ascii(t) THEN "any" ELSE IF ~LenientInt(t) THEN (IF Signs(t) THEN "any" ELSE "error")
                    ELSE IF ~PlainInt(t) THEN (IF Small(t) /\ LenientVal(t) \notin allowed THEN "reported" ELSE "any")
                    ELSE IF Small(t) /\ LenientVal(t) \in allowed THEN "ok" ELSE "reported"
NonNeg(t) == IF PlainInt(t) THEN "ok" ELSE IF ~Ascii(t) THEN "reported" ELSE IF LenientInt(t) /\ ~Negative(Strip(t)) THEN "reported"
             ELSE IF (LenientInt(t) /\ LenientVal(t) = 0) \/ Signs(t) THEN "reported" ELSE "error"
Coord(t, n) == IF PlainFloat(t) THEN (IF Within(t, n) THEN "ok" ELSE "error")
               ELSE IF ~Ascii(t) \/ LenientFloat(t) \/ Signs(t) THEN "reported" ELSE "error"
NonNegFloat(t) == IF PlainFloat(t) THEN (IF Negative(t) /\ \E i \in DOMAIN t : t[i] \in 49..57 THEN "error" ELSE IF Negative(t) THEN "any" ELSE "ok")
                  ELSE IF ~Ascii(t) \/ LenientFloat(t) \/ Signs(t) THEN "reported" ELSE "error"
Yes(b) == IF b THEN "ok" ELSE "error"
One(t, set) == \E n \in set : t = <<48 + n>>

NonBlank(kind, t) ==
  CASE kind = "text" -> "ok"
    [] kind = "url" -> Yes(UrlOK(t))
    [] kind = "email" -> Yes(EmailOK(t))
    [] kind = "lang" -> (CASE LangOK(t) = "yes" -> "ok" [] LangOK(t) = "no" -> "error" [] OTHER -> "any")
    [] kind = "time" -> Yes(TimeOK(t))
    [] kind = "date" -> Yes(DateOK(t))
    [] kind = "calendardate" -> Yes(DateOK(t) /\ Year(t) \in CalendarYears)
    [] kind = "color" -> Yes(ColorOK(t))
    [] kind = "bit" -> Yes(One(t, {0, 1}))
    [] kind = "onetwo" -> Yes(One(t, {1, 2}))
    [] kind = "tri" -> Yes(One(t, {0, 1, 2}))
    [] kind = "enum1" -> Enum(t, {0, 1})
    [] kind = "enum3" -> Enum(t, 0..3)
    [] kind = "enum4" -> Enum(t, 0..4)
    [] kind = "routetype" -> (IF NonNeg(t) = "ok" THEN Enum(t, 0..7) ELSE NonNeg(t))
    [] kind = "nonneg" -> NonNeg(t)
    [] kind = "sequence" -> (IF ~Ascii(t) THEN "any" ELSE IF ~LenientInt(t) THEN (IF Signs(t) THEN "any" ELSE "error") ELSE IF PlainInt(t) THEN "ok"
                             ELSE IF LenientVal(t) < 0 THEN "reported" ELSE "any")
    [] kind = "headway" -> (IF ~Ascii(t) THEN "any" ELSE IF ~LenientInt(t) THEN (IF Signs(t) THEN "any" ELSE "error") ELSE IF LenientVal(t) <= 0 THEN "reported"
                            ELSE IF PlainInt(t) THEN "ok" ELSE "any")
    [] kind = "lat" -> Coord(t, 90)
    [] kind = "lon" -> Coord(t, 180)
    [] kind = "distance" -> NonNegFloat(t)
Verdict(kind, required, t) == IF Blank(t) THEN (IF required THEN "missing" ELSE "ok") ELSE NonBlank(kind, t)

\* what an accepted value denotes: a number, for these kinds
HasNumber(kind) == kind \in {"time", "date", "calendardate", "enum1", "enum3", "enum4", "routetype", "nonneg", "sequence", "headway", "lat", "lon", "distance"}
Number(kind, t) == CASE kind = "time" -> TimeVal(t)
                     [] kind \in {"date", "calendardate"} -> DateVal(t)
                     [] kind \in {"lat", "lon", "distance"} -> Micro(t)
                     [] OTHER -> LenientVal(t)
Comparable(kind, t) == CASE kind \in {"lat", "lon", "distance"} -> Exact(t)
                         [] kind \in {"time", "date", "calendardate"} -> TRUE
                         [] OTHER -> Len(t) <= 9
=============================================================================
