------------------------------- MODULE CsvMC -------------------------------
(* The reader gives back what the writer was given: all tables of up to two  *)
(* rows of up to two cells of up to MaxLen characters, letter by letter.     *)
EXTENDS Csv
CONSTANTS MaxLen, Letters, MaxRows, MaxCells
VARIABLES rows, text, i, s
Words == UNION {[1..n -> Letters] : n \in 0..MaxLen}
Lines == UNION {[1..n -> Words] : n \in 1..MaxCells}
Init == rows \in UNION {[1..n -> Lines] : n \in 1..MaxRows} /\ text = Text(rows) /\ i = 0 /\ s = Start0
Next == i < Len(text) /\ i' = i + 1 /\ s' = Step(s, text[i + 1]) /\ UNCHANGED <<rows, text>>
Spec == Init /\ [][Next]_<<rows, text, i, s>>
NeverBad == s.st # "bad"
Prefix == IsPrefix(s.rows, rows)
GivenBack == i = Len(text) => WellFormed(s) /\ s.rows = rows
=============================================================================
