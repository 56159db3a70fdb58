----------------------------- MODULE TranslateMC -----------------------------
(* Small feeds converted a row at a time.                                     *)
EXTENDS Translate
CONSTANTS IdSet, Texts, Values, Foreign, Langs2
VARIABLES old, tables, at, new, out
vars == <<old, tables, at, new, out>>
Maps == [IdSet -> {<<>>} \cup {<<x>> : x \in Texts} \cup {<<x, l, y>> : x \in Texts, l \in Langs2, y \in Foreign}]
Seq1(m) == FlattenSeq([i \in 1 .. Cardinality(IdSet) |-> LET x == SetToSortSeq(IdSet, LAMBDA a, b : a = "a")[i]  w == m[x] IN
             IF w = <<>> THEN <<>> ELSE <<[id |-> x, lang |-> "en", text |-> w[1]]>> \o (IF Len(w) = 1 THEN <<>> ELSE <<[id |-> x, lang |-> w[2], text |-> w[3]]>>)])
Feed(q) == << [name |-> "stops", cols |-> <<"stop_id", "stop_name">>, rows |-> <<<<"s1", q[1]>>, <<"s2", q[2]>>>>],
              [name |-> "trips", cols |-> <<"trip_id", "trip_headsign">>, rows |-> <<<<"t1", q[3]>>, <<"t2", q[4]>>>>],
              [name |-> "feed_info", cols |-> <<"feed_publisher_name", "feed_lang">>, rows |-> <<<<q[1], "en">>>>] >>
Init == /\ \E m \in Maps : old = Seq1(m)
        /\ \E q \in [1 .. 4 -> Values] : tables = Feed(q)
        /\ at = <<1, 1>> /\ new = {} /\ out = <<<<>>, <<>>, <<>>>>
Convert == /\ at[1] <= Len(tables)
           /\ LET t == tables[at[1]] IN
              /\ new' = new \cup RowEntries(old, "en", t, at[2])
              /\ out' = [out EXCEPT ![at[1]] = Append(@, NewRow(old, "en", t, at[2]))]
              /\ at' = IF at[2] < Len(t.rows) THEN <<at[1], at[2] + 1>> ELSE <<at[1] + 1, 1>>
           /\ UNCHANGED <<old, tables>>
Next == Convert
Spec == Init /\ [][Next]_vars
Done == at[1] > Len(tables)
Kept == Done => \A i \in DOMAIN tables : \A r \in DOMAIN tables[i].rows : KeptRow(old, "en", tables[i], new, r)
EntriesBacked == \A e \in new : Backed(old, "en", tables, e)
RowsKept == Done => \A i \in DOMAIN tables : Len(out[i]) = Len(tables[i].rows) /\ \A r \in DOMAIN out[i] : Rid(tables[i], r) = Rid([tables[i] EXCEPT !.rows = out[i]], r)
\* entries are never contradictory
OneAnswer == \A d, e \in new : (d.table = e.table /\ d.field = e.field /\ d.lang = e.lang /\ d.rid = e.rid /\ d.sub = e.sub /\ d.val = e.val) => d = e
=============================================================================
