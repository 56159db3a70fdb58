---------------------------- MODULE LangTagTrace ----------------------------
EXTENDS LangTag, TraceIO
VARIABLES c, l, s
CStart(case) == [reg |-> {<<case.reg[i][1], case.reg[i][2]>> : i \in DOMAIN case.reg}, tag |-> case.tag]
CPost(w, e) == w
\* reports: sequence of [col, value, level]; no tag at all is not reported
CClauses(v, w, e) ==
  LET k == Verdict(w.tag, w.reg)
      want == IF w.tag = <<>> \/ k = "valid" THEN <<>> ELSE << [col |-> "agency_lang", value |-> w.tag, level |-> IF k = "malformed" THEN "E" ELSE "W"] >> IN
  CASE e.op = "parse" -> << <<"well formed", e.o.formed = (k # "malformed")>>, <<"valid", e.o.valid = (k = "valid")>> >>
    [] e.op = "is" -> << <<"asked for a plain answer", e.o = (k = "valid")>> >>
    [] e.op = "check" -> << <<"answer", e.o.ok = (want = <<>>)>>, <<"reports", e.o.reports = want>> >>
    [] e.op = "load" -> << <<"reports while loading", e.o.reports = want>>, <<"loaded value", e.o.kept = w.tag>> >>
    [] OTHER -> << <<"known operation", FALSE>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
