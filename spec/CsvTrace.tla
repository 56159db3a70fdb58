------------------------------ MODULE CsvTrace ------------------------------
(* Rows written by the code, as characters: the specified reader finds the   *)
(* cells, and the code's reader finds them in the specified writer's text.   *)
EXTENDS Csv, TraceIO
VARIABLES c, l, s
CStart(case) == <<>>
CPost(rows, e) == Append(rows, e.row)
CClauses(rows, t, e) == LET p == Parse(e.o.text) IN
  << <<"the text is well formed", WellFormed(p)>>, <<"the cells are in the text", p.rows = t>>, <<"the reader finds the cells", e.o.read = t>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
