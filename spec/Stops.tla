------------------------------- MODULE Stops -------------------------------
(* Stops, stations and their distances.  A stop is a record                    *)
(*   type   : location type (0 stop, 1 station, 2 entrance, 3 node, 4 boarding) *)
(*   where  : "at" (x, y in decimetres on a local grid), "none" (no usable      *)
(*            coordinates) or "far" (coordinates out of range)                  *)
(*   parent : index of the parent, 0 for none, -1 for an unknown one            *)
(*   used   : number of stop times there                                        *)
(*   name, desc : the texts without case and outer blanks ("" if empty)         *)
(*   bad    : the set of columns with malformed values                          *)
(*   tz, origin : has a time zone; is near 0, 0                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Abs(n) == IF n < 0 THEN -n ELSE n
Locatable(s) == s.where # "none"
\* Is the distance of a and b (both locatable) more than r decimetres?
Farther(a, b, r) ==
  LET dx == Abs(a.x - b.x) dy == Abs(a.y - b.y) IN
  \/ a.where = "far" \/ b.where = "far" \/ dx > r \/ dy > r \/ dx * dx + dy * dy > r * r

\* ------------------------------------------------------------ each row by itself
RowDefects(s) ==
     s.bad
  \cup (IF s.name = "" THEN {"missing stop_name"} ELSE {})
  \cup (IF s.name # "" /\ s.desc = s.name THEN {"description repeats name"} ELSE {})
  \cup (IF s.type = 1 /\ s.parent # 0 THEN {"station with parent"} ELSE {})
  \cup (IF s.tz /\ s.parent # 0 THEN {"child with time zone"} ELSE {})
  \cup (IF s.origin THEN {"near origin"} ELSE {})

\* ---------------------------------------------------------------- the hierarchy
Child(S, i) == S[i].type # 1 /\ S[i].parent # 0
Unused(S) == {i \in DOMAIN S : S[i].type = 0 /\ S[i].used = 0}
UsedStations(S) == {i \in DOMAIN S : S[i].type = 1 /\ S[i].used # 0}
NoParent(S) == {i \in DOMAIN S : Child(S, i) /\ S[i].parent = -1}
ParentNoStation(S) == {i \in DOMAIN S : Child(S, i) /\ S[i].parent > 0 /\ S[S[i].parent].type # 1}
Sound(S, i) == Child(S, i) /\ S[i].parent > 0 /\ S[S[i].parent].type = 1
FarFromParent(S) ==
  {<<i, IF Farther(S[i], S[S[i].parent], 10000) THEN "E" ELSE "W">> :
     i \in {i \in DOMAIN S : /\ Sound(S, i) /\ Locatable(S[i]) /\ Locatable(S[S[i].parent])
                             /\ Farther(S[i], S[S[i].parent], 1000)}}

\* ------------------------------------------------------------------- neighbours
Close(a, b) == Locatable(a) /\ Locatable(b) /\ ~Farther(a, b, 19)
ClosePairs(S, type) == {{i, j} : <<i, j>> \in {p \in (DOMAIN S) \X (DOMAIN S) :
                          p[1] < p[2] /\ S[p[1]].type = type /\ S[p[2]].type = type /\ Close(S[p[1]], S[p[2]])}}
\* a stop next to a station that is not its parent
ForeignStation(S) == {<<i, j>> \in (DOMAIN S) \X (DOMAIN S) :
                        S[i].type = 0 /\ S[j].type = 1 /\ S[i].parent # j /\ Close(S[i], S[j])}
=============================================================================
