----------------------------- MODULE ValuesTrace -----------------------------
EXTENDS Values, TraceIO
VARIABLES c, l, s
CStart(case) == 0
CPost(w, e) == w
\* what the functions of the library say about a text
UtilVerdict(k, t) ==
  CASE k = "time" -> Yes(TimeOK(t))
    [] k = "date" -> Yes(DateOK(t))
    [] k = "color" -> Yes(ColorOK(t))
    [] k = "lang" -> NonBlank("lang", t)
    [] k = "url" -> Yes(UrlOK(t))
    [] k = "email" -> IF Blank(t) THEN "ok" ELSE Yes(EmailOK(t))
    [] k = "tri" -> Yes(One(t, {0, 1, 2}))
    [] k = "nonneg" -> NonNeg(t)
    [] k = "float" -> IF PlainFloat(t) THEN "ok" ELSE IF ~Ascii(t) \/ LenientFloat(t) \/ Signs(t) THEN "reported" ELSE "error"
    [] k \in {"enum1", "enum3", "enum4"} -> IF Blank(t) THEN "ok" ELSE NonBlank(k, t)
Says(v, said) == CASE v = "any" -> said # "inconsistent"
                   [] v = "reported" -> said \in {"error", "warning"}
                   [] OTHER -> said = v
UtilNumber(k, t, o) ==
  CASE k = "color" -> o.has /\ o.n = Lum(t)
    [] k = "time" -> o.has /\ o.n = TimeVal(t)
    [] k = "date" -> o.has /\ o.n = DateVal(t)
    [] k = "float" -> Exact(t) => o.has /\ o.n = Micro(t)
    [] k \in {"nonneg", "enum1", "enum3", "enum4"} -> (Len(t) <= 9 /\ ~Blank(t)) => o.has /\ o.n = LenientVal(t)
    [] OTHER -> TRUE
Level(v, o) ==
  CASE v = "ok" -> o.level = "none"
    [] v = "missing" -> o.level = "error"
    [] v = "error" -> o.level = "error" /\ o.invalid
    [] v = "reported" -> o.level # "none" /\ o.invalid
    [] v = "any" -> TRUE
GoodColor(t) == ~Blank(t) /\ ColorOK(t)
CClauses(w, y, e) ==
  CASE e.op = "util" ->
         LET v == UtilVerdict(e.x.kind, e.x.t) IN
         << <<"accepted or reported", Says(v, e.o.said)>>,
            <<"value denoted", v = "ok" => UtilNumber(e.x.kind, e.x.t, e.o)>>,
            <<"column and value reported", e.o.col>> >>
    [] e.op = "format" -> << <<"text of a time", e.o.t = TimeText(e.x.n)>>, <<"time of the text", e.o.back = e.x.n>> >>
    [] e.op = "tz" -> << <<"time zone", e.o.ok = e.x.known>> >>
    [] e.op = "field" ->
         LET t == Strip(e.x.t)  v == IF e.x.kind = "tz" THEN (IF Blank(t) THEN (IF e.x.req THEN "missing" ELSE "ok") ELSE Yes(e.x.known)) ELSE Verdict(e.x.kind, e.x.req, t) IN
         << <<"accepted or reported", Level(v, e.o)>>,
            <<"the value at fault", e.o.value>>,
            <<"the file at fault", e.o.file>>,
            <<"nothing else is reported", v = "ok" => e.o.rest = <<>> >>,
            <<"value kept", (v = "ok" /\ ~Blank(t)) =>
                IF HasNumber(e.x.kind) THEN Comparable(e.x.kind, t) => e.o.has /\ e.o.n = Number(e.x.kind, t)
                ELSE e.o.text = t \/ e.x.kind \in {"bit", "onetwo"}>>,
            <<"contrast of the colours", e.x.kind = "color" =>
                LET o == Strip(e.x.other)
                    mine == IF GoodColor(t) THEN t ELSE IF e.x.cols[1] = "route_color" THEN White ELSE Black
                    other == IF GoodColor(o) THEN o ELSE IF e.x.cols[1] = "route_color" THEN Black ELSE White
                IN (e.o.contrast > 0) = LowContrast(mine, other)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
