-------------------------------- MODULE Csv --------------------------------
(* The text form of a table: cells separated by commas, rows ended by CR LF  *)
(* or LF, a cell in double quotes if it needs it, a quote doubled inside.    *)
(* Characters are code points.  Parse is the reader as a state machine over  *)
(* characters: s = [rows, row, cell, st] with st one of                      *)
(*   "new" (start of a row), "start" (of a cell), "plain", "quoted",         *)
(*   "closed" (a quote seen inside a quoted cell), "bad".                    *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
Comma == 44
Quote == 34
Cr == 13
Lf == 10

Start0 == [rows |-> <<>>, row |-> <<>>, cell |-> <<>>, st |-> "new", cr |-> FALSE]
EndCell(s) == [s EXCEPT !.row = Append(@, s.cell), !.cell = <<>>, !.st = "start"]
EndRow(s) == LET t == IF s.st = "new" THEN s ELSE EndCell(s) IN
             [t EXCEPT !.rows = Append(@, t.row), !.row = <<>>, !.st = "new", !.cr = FALSE]
Put(s, x, st) == [s EXCEPT !.cell = Append(@, x), !.st = st]
Step(s, x) ==
  IF s.st = "bad" THEN s
  ELSE IF s.cr THEN IF x = Lf THEN EndRow(s) ELSE [s EXCEPT !.st = "bad"]
  ELSE CASE s.st \in {"new", "start"} ->
              IF x = Quote THEN [s EXCEPT !.st = "quoted"] ELSE IF x = Comma THEN EndCell(s)
              ELSE IF x = Lf THEN EndRow(s) ELSE IF x = Cr THEN [s EXCEPT !.cr = TRUE] ELSE Put(s, x, "plain")
         [] s.st = "plain" ->
              IF x = Comma THEN EndCell(s) ELSE IF x = Lf THEN EndRow(s) ELSE IF x = Cr THEN [s EXCEPT !.cr = TRUE] ELSE Put(s, x, "plain")
         [] s.st = "quoted" -> IF x = Quote THEN [s EXCEPT !.st = "closed"] ELSE Put(s, x, "quoted")
         [] s.st = "closed" ->
              IF x = Quote THEN Put(s, x, "quoted") ELSE IF x = Comma THEN EndCell(s) ELSE IF x = Lf THEN EndRow(s)
              ELSE IF x = Cr THEN [s EXCEPT !.cr = TRUE] ELSE [s EXCEPT !.st = "bad"]
Parse(text) == FoldLeft(Step, Start0, text)
WellFormed(s) == s.st = "new"          \* every row is ended
RowsOfText(text) == Parse(text).rows

\* the writer: quotes only where needed; the only cell of a row is quoted if it is empty
Needs(x) == \E i \in DOMAIN x : x[i] \in {Comma, Quote, Cr, Lf}
Cell(x, only) == IF Needs(x) \/ (only /\ x = <<>>)
                 THEN <<Quote>> \o FlattenSeq([i \in DOMAIN x |-> IF x[i] = Quote THEN <<Quote, Quote>> ELSE <<x[i]>>]) \o <<Quote>> ELSE x
Line(r) == FlattenSeq([i \in DOMAIN r |-> (IF i > 1 THEN <<Comma>> ELSE <<>>) \o Cell(r[i], Len(r) = 1)]) \o <<Cr, Lf>>
Text(rows) == FlattenSeq([i \in DOMAIN rows |-> Line(rows[i])])
=============================================================================
