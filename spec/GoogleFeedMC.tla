---------------------------- MODULE GoogleFeedMC ----------------------------
(* Loading a stop column by column: name, kind of place, zone, vehicle; a     *)
(* value found wrong is put right before the next is looked at.  What is      *)
(* reported in the end is what is wrong with the row, in whichever order the  *)
(* columns are looked at, and nothing is left to put right the second time.   *)
EXTENDS GoogleFeed
VARIABLES row, cur, todo, said, round
vars == <<row, cur, todo, said, round>>
N(t, n) == [text |-> t, num |-> n]
Rows == [id : {"s"}, name : {"", "n"}, type : {Blank, N("0", 0), N("1", 1), N("2", 2), N("5", 5), N("abc", -1)}, vehicle : {Blank, N("0", 0), N("3", 3), N("99", 99), N("abc", -1)},
         parent : {"", "p"}, zone : {"", "z"}, code : {""}, used : {FALSE}]
Steps == {"name", "type", "zone", "vehicle", "station"}
Init == row \in Rows /\ cur = row /\ todo = Steps /\ said = <<>> /\ round = 1
Fixed(s, c) == CASE c = "type" -> [s EXCEPT !.type = IF IsNum(s.type) THEN s.type ELSE N("0", 0)]
                 [] c = "vehicle" -> [s EXCEPT !.vehicle = IF IsNum(s.vehicle) THEN s.vehicle ELSE Blank]
                 [] OTHER -> s
Column(c) == CASE c = "name" -> "stop_name" [] c = "type" -> "location_type" [] c = "zone" -> "stop_timezone" [] c = "station" -> "parent_station" [] OTHER -> "vehicle_type"
Look(c) == /\ c \in todo /\ todo' = todo \ {c}
           /\ said' = said \o SelectSeq(StopReports(cur), LAMBDA r : r[1] = Column(c))
           /\ cur' = Fixed(cur, c)
           /\ UNCHANGED <<row, round>>
Second == todo = {} /\ round = 1 /\ round' = 2 /\ todo' = Steps /\ said' = <<>> /\ UNCHANGED <<row, cur>>
Next == (\E c \in Steps : Look(c)) \/ Second
Spec == Init /\ [][Next]_vars
Exactly == todo = {} => SameBag(said, StopReports(IF round = 1 THEN row ELSE LoadedStop(row)))
Mended == todo = {} => cur.vehicle = LoadedStop(row).vehicle /\ cur.type.num = (IF row.type = Blank THEN 0 ELSE LoadedStop(row).type.num)
\* judging a fare does not depend on the order in which agencies came
FareSteady == \A n \in 1 .. 2 : \A q \in [1 .. n -> {"", "a", "b"}] : \A f \in {"", "a", "x"} :
                FareReports([id |-> "f", agency |-> f], q) = FareReports([id |-> "f", agency |-> f], Reverse(q))
=============================================================================
