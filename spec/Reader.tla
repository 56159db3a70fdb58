------------------------------- MODULE Reader -------------------------------
(* From the bytes of a table to its rows: what is reported about the file,   *)
(* its heading and its lines, and which rows are delivered to the loader.    *)
(* A file is [place, pre, lines]:                                            *)
(*  place  "ok", "dir" (a directory of that name), "damaged" (archive member)*)
(*  pre    what it begins with: "none", "bom", "utf16" (encoded so), "odd16" *)
(*  lines  each [c, sp, bad, end, seps, nul, cr, open]: c the trimmed cells, *)
(*         sp and bad those with blanks around them and those not valid in   *)
(*         utf-8; end one of lf, crlf, other, none; seps a foreign line      *)
(*         separator inside; nul a NUL byte; cr a bare CR outside quotes;    *)
(*         open: the last cell opens a quote which never closes              *)
(*  tail   the text of such a cell: it takes in the rest of the file         *)
EXTENDS Feed

Whole == {"calendar.txt", "calendar_dates.txt", "stop_times.txt"}   \* their rows are lists of known columns
Present(file) == file.place # "dir"
Unread(file) == \/ file.place \in {"dir", "damaged"} \/ file.pre = "odd16" \/ file.lines = <<>>
                \/ \E i \in DOMAIN file.lines : file.lines[i].nul
FirstOpen(file) == IF \E i \in DOMAIN file.lines : file.lines[i].open
                   THEN CHOOSE i \in DOMAIN file.lines : file.lines[i].open /\ \A j \in 1..i - 1 : ~file.lines[j].open
                   ELSE Len(file.lines) + 1
Cells(file, i) == LET x == file.lines[i] IN IF i = FirstOpen(file) THEN [x.c EXCEPT ![Len(x.c)] = file.tail] ELSE x.c
Unreadable(file, i) == file.lines[i].cr
Top(file) == IF Unreadable(file, 1) THEN <<>> ELSE Cells(file, 1)
Names(file) == ToSet(Top(file)) \ {""}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
At(file, name, n) == {i \in DOMAIN Top(file) : Top(file)[i] = name /\ i <= n}
\* which cell of a row of n cells stands under a name (0: none)
Index(f, file, name, n) ==
  IF f \in Whole THEN LET i == MinOf(At(file, name, Len(Top(file)))) IN IF i <= n THEN i ELSE 0
  ELSE IF At(file, name, n) = {} THEN 0 ELSE MaxOf(At(file, name, n))
Cnt(file, n) == IF n = Len(Top(file)) THEN "ok" ELSE IF n > Len(Top(file)) THEN "many" ELSE "few"
Row(f, file, i) ==
  LET cs == Cells(file, i)  n == Len(cs)
      has == {c \in Names(file) : f \in Whole \/ Index(f, file, c, n) > 0} IN
  [f |-> f, n |-> i, cnt |-> Cnt(file, n),
   r |-> [c \in has |-> IF Index(f, file, c, n) = 0 THEN "" ELSE cs[Index(f, file, c, n)]]]
Lines(file) == IF Unread(file) THEN <<>> ELSE [i \in 1..Len(file.lines) |-> i]
Delivers(file, i) == i > 1 /\ i <= FirstOpen(file) /\ ~Unreadable(file, i) /\ file.lines[i].c # <<>>
Rows(f, file) == LET q == SelectSeq(Lines(file), LAMBDA i : Delivers(file, i)) IN [k \in DOMAIN q |-> Row(f, file, q[k])]

\* ---- reports: <<class, level, line (-1: none), column or "">>
Encoded(file) ==
  On(file.place = "damaged", {<<"FileFormat", "E", -1, "">>})
  \cup On(file.place = "ok" /\ file.pre \in {"utf16", "odd16"}, {<<"FileFormat", "E", -1, "">>})
  \cup On(file.place = "ok" /\ file.lines = <<>> /\ file.pre \in {"none", "bom"}, {<<"EmptyFile", "E", -1, "">>})
  \cup On(file.place = "ok" /\ file.pre # "odd16" /\ \E i \in DOMAIN file.lines : file.lines[i].nul, {<<"FileFormat", "E", -1, "">>})
LineEnds(file) ==
  {<<"InvalidLineEnd", "W", i, "">> : i \in {i \in DOMAIN file.lines : file.lines[i].end = "other"}}
  \cup {<<"OtherProblem", "E", i, "">> : i \in {i \in DOMAIN file.lines : file.lines[i].seps}}
  \cup {<<"CsvSyntax", "E", i, "">> : i \in {i \in DOMAIN file.lines : i <= FirstOpen(file) /\ Unreadable(file, i)}}
  \cup On(\E i, j \in DOMAIN file.lines : file.lines[i].end = "lf" /\ file.lines[j].end = "crlf", {<<"OtherProblem", "E", -1, "">>})
Heading(f, file) ==
  LET h == Top(file)  n == Names(file)
      foreign == n \ Known(f)
  IN On(f \notin Whole, {<<"CsvSyntax", "E", 1, "">> : i \in {i \in DOMAIN h : h[i] = ""}}
                        \cup {<<"CsvSyntax", "W", 1, "">> : i \in {i \in DOMAIN h : h[i] # "" /\ i \in ToSet(file.lines[1].sp)}})
     \cup {<<"DuplicateColumn", "E", -1, c>> : c \in {c \in n : Cardinality({i \in DOMAIN h : h[i] = c}) > 1}}
     \cup (IF f \notin Whole /\ Cardinality(foreign) = Cardinality({i \in DOMAIN h : h[i] # ""}) THEN {<<"CsvSyntax", "E", 1, "">>} ELSE {<<"UnrecognizedColumn", "W", 1, c>> : c \in foreign})
     \cup {<<"MissingColumn", "E", 1, c>> : c \in Required[f] \ n}
     \cup {<<"DeprecatedColumn", "W", 1, c>> : c \in n \cap Deprecated[f]}
BadCells(f, file) ==
  UNION {{<<"InvalidValue", "E", i, c>> : c \in {c \in Names(file) \cap (IF f \in Whole THEN Known(f) ELSE Names(file)) :
              LET k == Index(f, file, c, Len(Cells(file, i))) IN IF k = 0 THEN FALSE ELSE k \in ToSet(file.lines[i].bad)}}
         : i \in {i \in DOMAIN file.lines : Delivers(file, i)}}
Counts2(file) == {<<"OtherProblem", "W", i, "">> : i \in {i \in DOMAIN file.lines : Delivers(file, i) /\ Len(Cells(file, i)) # Len(Top(file))}}
Reports(f, file) == Encoded(file) \cup (IF Unread(file) THEN {} ELSE LineEnds(file) \cup Heading(f, file) \cup BadCells(f, file) \cup Counts2(file))

\* ---- a feed: files by name
There(fs, f) == f \in DOMAIN fs /\ Present(fs[f])
Absences(fs) == {f \in Obligatory : ~There(fs, f)}
               \cup On(~There(fs, "calendar.txt") /\ ~There(fs, "calendar_dates.txt"), {"calendar.txt"})
RECURSIVE Chain(_, _)
Chain(fs, k) == IF k > Len(Order) THEN <<>> ELSE (IF There(fs, Order[k]) THEN Rows(Order[k], fs[Order[k]]) ELSE <<>>) \o Chain(fs, k + 1)
AllRows(fs) == Chain(fs, 1)
=============================================================================
