------------------------------ MODULE Factory ------------------------------
(* The factory of table classes.  A factory is f = [files, classes]:           *)
(*   files   : set of [n, req, ord, cl]: file name, required, loading order    *)
(*             (NoOrder if it is not loaded in the standard way), class names  *)
(*   classes : set of [n, v]: class name and class                             *)
(* The state is the sequence of the factories in use.  An operation            *)
(* e = [op, f, n, ...] works on factory f.                                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
NoOrder == 9999

Std(n, req, ord, cl) == [n |-> n, req |-> req, ord |-> ord, cl |-> cl]
StdFiles == {
  Std("agency.txt", TRUE, 0, <<"Agency">>), Std("stops.txt", TRUE, 10, <<"Stop">>), Std("routes.txt", TRUE, 20, <<"Route">>),
  Std("transfers.txt", FALSE, 30, <<"Transfer">>), Std("trips.txt", TRUE, 40, <<"Trip">>),
  Std("fare_attributes.txt", FALSE, 50, <<"FareAttribute">>), Std("fare_rules.txt", FALSE, 60, <<"FareRule">>),
  Std("frequencies.txt", FALSE, 70, <<"Frequency">>), Std("feed_info.txt", FALSE, 100, <<"FeedInfo">>),
  Std("calendar.txt", FALSE, NoOrder, <<"ServicePeriod">>), Std("calendar_dates.txt", FALSE, NoOrder, <<"ServicePeriod">>),
  Std("shapes.txt", FALSE, NoOrder, <<"Shape", "ShapePoint">>), Std("stop_times.txt", TRUE, NoOrder, <<"StopTime">>)}
StdClasses == {"Agency", "ServicePeriod", "FareAttribute", "FareRule", "Frequency", "FeedInfo", "Shape", "ShapePoint", "Stop",
               "StopTime", "Route", "Transfer", "Trip", "Schedule", "Loader"}
New == [files |-> StdFiles, classes |-> {[n |-> n, v |-> n] : n \in StdClasses}]

File(f, n) == CHOOSE x \in f.files : x.n = n
Class(f, n) == CHOOSE x \in f.classes : x.n = n
Knows(f, n) == \E x \in f.files : x.n = n
Has(f, n) == \E x \in f.classes : x.n = n

\* --------------------------------------------------------------- edits
\* m: mapping given, with a set "has" of the fields it contains
Fields == {"req", "ord", "cl"}
Refused(f, e) ==
  CASE e.op = "addmap"   -> IF e.m.has # Fields THEN "InvalidMapping" ELSE IF Knows(f, e.n) THEN "DuplicateMapping" ELSE ""
    [] e.op = "updmap"   -> IF Knows(f, e.n) THEN "" ELSE "NonexistentMapping"
    [] e.op = "addclass" -> IF Has(f, e.n) THEN "DuplicateMapping" ELSE ""
    [] e.op \in {"updclass", "rmclass"} -> IF Has(f, e.n) THEN "" ELSE "NonexistentMapping"
    [] OTHER -> ""
Upd(x, m) == [n |-> x.n, req |-> IF "req" \in m.has THEN m.req ELSE x.req, ord |-> IF "ord" \in m.has THEN m.ord ELSE x.ord,
              cl |-> IF "cl" \in m.has THEN m.cl ELSE x.cl]
Edit(f, e) ==
  IF Refused(f, e) # "" THEN f
  ELSE CASE e.op = "addmap"   -> [f EXCEPT !.files = @ \cup {[n |-> e.n, req |-> e.m.req, ord |-> e.m.ord, cl |-> e.m.cl]}]
         [] e.op = "updmap"   -> [f EXCEPT !.files = (@ \ {File(f, e.n)}) \cup {Upd(File(f, e.n), e.m)}]
         [] e.op = "rmmap"    -> [f EXCEPT !.files = {x \in @ : x.n # e.n}]
         [] e.op = "addclass" -> [f EXCEPT !.classes = @ \cup {[n |-> e.n, v |-> e.v]}]
         [] e.op = "updclass" -> [f EXCEPT !.classes = (@ \ {Class(f, e.n)}) \cup {[n |-> e.n, v |-> e.v]}]
         [] e.op = "rmclass"  -> [f EXCEPT !.classes = @ \ {Class(f, e.n)}]
         [] OTHER -> f       \* "dict": the caller changes a mapping handed over before
Do(fs, e) == IF e.op = "new" THEN Append(fs, New) ELSE [fs EXCEPT ![e.f] = Edit(@, e)]

\* --------------------------------------------------------------- queries
ByName(f, n) == IF Has(f, n) THEN Class(f, n).v ELSE "none"
ByFile(f, n) == IF ~Knows(f, n) THEN "none"
                ELSE LET cl == File(f, n).cl IN
                     IF Len(cl) > 1 THEN "NonStandardMapping"
                     ELSE IF Has(f, cl[1]) THEN Class(f, cl[1]).v ELSE "error"
Required(f, n) == Knows(f, n) /\ File(f, n).req
Loaded(f) == {x.n : x \in {x \in f.files : x.ord # NoOrder}}
\* every file loaded in the standard way once, in loading order (ties either way)
IsLoadingOrder(f, q) == /\ ToSet(q) = Loaded(f) /\ Len(q) = Cardinality(Loaded(f))
                        /\ \A i \in 1..(Len(q) - 1) : File(f, q[i]).ord <= File(f, q[i + 1]).ord
=============================================================================
