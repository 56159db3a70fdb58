----------------------------- MODULE FactoryUse -----------------------------
(* What a factory's registrations mean for the feeds loaded with it.           *)
(* w = [ext, cols, tables, removed, forced, files]:                            *)
(*   ext     : kinds with a class of the extension                             *)
(*   cols    : kinds whose extension class knows the column x_note             *)
(*   tables  : tables of the extension [n, ord, req, rows, there]              *)
(*   removed : standard files taken out;  forced : optional ones made required *)
(*   old     : files with a column x_old;  olds : kinds that call it deprecated *)
(*   files   : standard files in the feed;  note : files with a column x_note  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NoOrder == 9999
Order == [Agency |-> 0, Stop |-> 10, Route |-> 20, Transfer |-> 30, Trip |-> 40, FareAttribute |-> 50, FareRule |-> 60, Frequency |-> 70, FeedInfo |-> 100]
FileOf(k) == CASE k = "Agency" -> "agency.txt" [] k = "Stop" -> "stops.txt" [] k = "Route" -> "routes.txt" [] k = "Transfer" -> "transfers.txt"
  [] k = "Trip" -> "trips.txt" [] k = "FareAttribute" -> "fare_attributes.txt" [] k = "FareRule" -> "fare_rules.txt" [] k = "Frequency" -> "frequencies.txt"
  [] k = "FeedInfo" -> "feed_info.txt" [] k = "Shape" -> "shapes.txt" [] k = "ShapePoint" -> "shapes.txt" [] k = "StopTime" -> "stop_times.txt"
  [] k = "ServicePeriod" -> "calendar.txt" [] OTHER -> ""
Loads(w, k) == FileOf(k) = "" \/ (FileOf(k) \in ToSet(w.files) /\ FileOf(k) \notin ToSet(w.removed))
ClassOf(w, k) == IF k \in ToSet(w.ext) THEN "ext" ELSE "base"
TableNames(w) == {w.tables[i].n : i \in DOMAIN w.tables}
Present(w) == ToSet(w.files) \cup {w.tables[i].n : i \in {i \in DOMAIN w.tables : w.tables[i].there}}
Unknown(w) == ToSet(w.removed) \cap ToSet(w.files)
Missing(w) == {f \in ToSet(w.forced) \ ToSet(w.removed) : f \notin ToSet(w.files)}
              \cup {w.tables[i].n : i \in {i \in DOMAIN w.tables : w.tables[i].req /\ w.tables[i].ord # NoOrder /\ ~w.tables[i].there}}
Unrecognised(w) == {f \in ToSet(w.note) : /\ f \in ToSet(w.files) \ ToSet(w.removed)
                                          /\ ~\E k \in ToSet(w.ext) \cap ToSet(w.cols) : FileOf(k) = f}
\* a column x_old: deprecated if the class of the file's rows says so (the first class of a file with two)
OldSay(w, f) == \E k \in ToSet(w.ext) \cap ToSet(w.olds) : FileOf(k) = f
OldRead(w) == {f \in ToSet(w.old) : f \in ToSet(w.files) \ ToSet(w.removed)}
Deprecated(w) == {<<f, "x_old", "x_note", "W">> : f \in {f \in OldRead(w) : OldSay(w, f)}}
UnknownOld(w) == {f \in OldRead(w) : ~OldSay(w, f)}
\* the rows of extension tables and extended standard tables, as they come in
RowsExpected(w) == {<<w.tables[i].n, r>> : i \in {}, r \in {}} \cup
  UNION {{<<w.tables[i].n, w.tables[i].rows[j]>> : j \in DOMAIN w.tables[i].rows} : i \in {i \in DOMAIN w.tables : w.tables[i].there /\ w.tables[i].ord # NoOrder}}
OrdOf(w, n) == IF n \in TableNames(w) THEN w.tables[CHOOSE i \in DOMAIN w.tables : w.tables[i].n = n].ord
               ELSE Order[CHOOSE k \in DOMAIN Order : FileOf(k) = n]
=============================================================================
