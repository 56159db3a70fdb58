------------------------------ MODULE ReaderMC ------------------------------
(* All small tables over a vocabulary of sound and defective lines; Emit     *)
(* prints larger ones, which are written out as bytes and loaded.            *)
EXTENDS Reader, Json
CONSTANTS Depth, Pool
VARIABLES f, file

L(c) == [c |-> c, sp |-> <<>>, bad |-> <<>>, end |-> "lf", seps |-> FALSE, nul |-> FALSE, cr |-> FALSE, open |-> FALSE]
Heads(g) == IF g = "fare_rules.txt"
  THEN {L(<<"fare_id", "route_id">>), L(<<"route_id", "note", "fare_id">>), L(<<"fare_id", "fare_id", "origin_id">>), L(<<"fare_id", "", "route_id">>),
        L(<<"a", "b">>), L(<<>>), [L(<<"fare_id", "route_id">>) EXCEPT !.sp = <<2>>], [L(<<"fare_id", "route_id">>) EXCEPT !.cr = TRUE]}
  ELSE {L(<<"service_id", "date", "exception_type">>), L(<<"date", "service_id">>), L(<<"date", "exception_type", "service_id", "date">>), L(<<"service_id", "", "date">>),
        L(<<"a">>), L(<<>>), [L(<<"service_id", "date", "exception_type">>) EXCEPT !.cr = TRUE]}
Body == {L(<<"x", "y">>), L(<<"x", "y", "z">>), L(<<"x">>), L(<<>>), L(<<"u", "v", "w">>)}
Variants(x) == {x, [x EXCEPT !.end = "crlf"], [x EXCEPT !.end = "other"], [x EXCEPT !.seps = TRUE], [x EXCEPT !.cr = TRUE], [x EXCEPT !.nul = TRUE],
                [x EXCEPT !.open = TRUE], [x EXCEPT !.bad = <<1>>], [x EXCEPT !.bad = <<Len(x.c)>>]}
Vocabulary == UNION {IF x.c = <<>> THEN {x, [x EXCEPT !.end = "crlf"]} ELSE IF Pool = "small" /\ Len(x.c) # 2 THEN {x} ELSE Variants(x) : x \in Body}

Init == /\ f \in {"fare_rules.txt", "calendar_dates.txt"}
        /\ file \in [place : {"ok"}, pre : {"none", "bom", "utf16", "odd16"}, lines : {<<>>} \cup {<<h>> : h \in Heads(f)}, tail : {"T"}]
                    \cup [place : {"dir", "damaged"}, pre : {"none"}, lines : {<<h>> : h \in Heads(f)}, tail : {"T"}]
        /\ (file.lines = <<>> => file.pre \in {"none", "bom"})
Next == /\ file.lines # <<>> /\ Len(file.lines) < Depth /\ f' = f
        /\ \E x \in Vocabulary : file' = [file EXCEPT !.lines = Append(@, x)]
Spec == Init /\ [][Next]_<<f, file>>

Lined == {r[3] : r \in Reports(f, file)}
Reported(i) == i \in Lined
Delivered == {Rows(f, file)[k].n : k \in DOMAIN Rows(f, file)}
FileReported == \E r \in Reports(f, file) : r[3] = -1 /\ r[1] \in {"FileFormat", "EmptyFile"}
\* a table that is not read has been reported (a directory counts as an absent table)
UnreadIsReported == Unread(file) => FileReported \/ ~Present(file)
\* each line of a table that is read is delivered, blank, reported, or part of a quote opened before it
NoLineIsLost == ~Unread(file) => \A i \in 2..Len(file.lines) :
   i \in Delivered \/ file.lines[i].c = <<>> \/ Reported(i) \/ i > FirstOpen(file)
\* each defect of a line is reported at the line, apart from open quotes
DefectsAreReported == ~Unread(file) => \A i \in 2..Len(file.lines) : i <= FirstOpen(file) =>
   LET x == file.lines[i] IN
   ((x.c # <<>> /\ (x.cr \/ x.seps \/ x.end = "other" \/ Len(x.c) # Len(Top(file)))) => Reported(i))
\* rows come in the order of their lines, and never from the heading
RowsInOrder == LET q == Rows(f, file) IN \A i, j \in DOMAIN q : i < j => q[i].n < q[j].n /\ q[i].n > 1
\* a row has columns of the heading only; a full row has all of them
ColumnsOfHeading == LET q == Rows(f, file) IN \A i \in DOMAIN q :
   /\ DOMAIN q[i].r \subseteq Names(file)
   /\ (q[i].cnt = "ok" => DOMAIN q[i].r = Names(file))
\* a missing required column is always reported
MissingIsReported == (Present(file) /\ ~Unread(file)) => \A c \in Required[f] \ Names(file) : <<"MissingColumn", "E", 1, c>> \in Reports(f, file)
\* a sound line is delivered the same whatever the lines after it (until a NUL spoils the table)
LaterLinesDoNotMatter == [][(~Unread(file) /\ ~Unread(file')) =>
   \A k \in DOMAIN Rows(f, file) : Rows(f, file)[k].n < FirstOpen(file) => \E m \in DOMAIN Rows(f, file') : Rows(f, file')[m] = Rows(f, file)[k]]_<<f, file>>
\* without its defective lines the table delivers the same rows of the other ones
Sound(x) == ~x.cr /\ ~x.open /\ ~x.nul
Alone == LET keep == SelectSeq([i \in DOMAIN file.lines |-> i], LAMBDA i : i = 1 \/ Sound(file.lines[i]))
             clean == [file EXCEPT !.lines = [k \in DOMAIN keep |-> file.lines[keep[k]]]] IN
  (~Unread(file) /\ \A i \in DOMAIN file.lines : ~file.lines[i].open) =>
    \A k \in 2..Len(keep) : keep[k] \in Delivered =>
      \E m \in DOMAIN Rows(f, clean) : Rows(f, clean)[m].n = k /\ Rows(f, clean)[m].r = Row(f, file, keep[k]).r
Emit == (Len(file.lines) = Depth) => PrintT(<<"BEH", ToJson(<<f, file>>)>>)
=============================================================================
