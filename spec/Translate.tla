------------------------------ MODULE Translate ------------------------------
(* Old translations: texts in the tables are looked up by their own value.    *)
(* New translations: entries for a field of a record, or of a value.          *)
(* old: sequence of [id, lang, text]; a table: [name, cols, rows].            *)
(* An entry: [table, field, lang, text, rid, sub, val].                       *)
EXTENDS Sequences, Integers, FiniteSets, TLC, SequencesExt, FiniteSetsExt
EndsWith(x, y) == Len(x) >= Len(y) /\ SubSeq(x, Len(x) - Len(y) + 1, Len(x)) = y
Endings == {"_name", "_desc", "_headsign", "_url", "_text", "_abbreviation", "signposted_as", "instructions"}
Translatable(c) == \E x \in Endings : EndsWith(c, x)
\* the identifying columns of a table: "" is none
Known == [agency |-> <<"agency_id", "">>, stops |-> <<"stop_id", "">>, routes |-> <<"route_id", "">>, trips |-> <<"trip_id", "">>,
          stop_times |-> <<"trip_id", "stop_sequence">>, feed_info |-> <<"", "">>, calendar |-> <<"service_id", "">>,
          calendar_dates |-> <<"service_id", "date">>, fare_attributes |-> <<"fare_id", "">>, fare_rules |-> <<"fare_id", "route_id">>,
          shapes |-> <<"shape_id", "shape_pt_sequence">>, frequencies |-> <<"trip_id", "start_time">>,
          transfers |-> <<"from_stop_id", "to_stop_id">>, pathways |-> <<"pathway_id", "">>, levels |-> <<"level_id", "">>]
IdCols(cols) == SelectSeq(cols, LAMBDA c : EndsWith(c, "_id"))
Key(t) == IF t.name \in DOMAIN Known THEN Known[t.name] ELSE IF IdCols(t.cols) = <<>> THEN <<"", "">> ELSE <<IdCols(t.cols)[1], "">>
ColOf(t, c) == IF \E i \in DOMAIN t.cols : t.cols[i] = c THEN CHOOSE i \in DOMAIN t.cols : t.cols[i] = c ELSE 0
CellOf(t, r, c) == IF ColOf(t, c) = 0 THEN "" ELSE t.rows[r][ColOf(t, c)]
Rid(t, r) == CellOf(t, r, Key(t)[1])
Sub(t, r) == CellOf(t, r, Key(t)[2])

\* the old way: the text of an id in a language ("" and FALSE: none)
Has(old, id, lang) == \E i \in DOMAIN old : old[i].id = id /\ old[i].lang = lang
TextOf(old, id, lang) == old[CHOOSE i \in DOMAIN old : old[i].id = id /\ old[i].lang = lang].text
Ids(old) == {old[i].id : i \in DOMAIN old}
Langs(old) == {old[i].lang : i \in DOMAIN old}
Usable(old, main) == main # "" /\ \A x \in Ids(old) : Has(old, x, main)
Original(old, main, v) == IF v \in Ids(old) THEN TextOf(old, v, main) ELSE v

\* the new way: the texts a reader may take for a field of a record with the value v
Resolved(new, t, field, rid, sub, v, lang) ==
  LET E == {e \in new : e.table = t.name /\ e.field = field /\ e.lang = lang}
      mine == {e \in E : e.val = "" /\ e.rid = rid /\ e.sub = sub}
      same == {e \in E : e.rid = "" /\ e.sub = "" /\ e.val # "" /\ e.val = v}
  IN {e.text : e \in IF mine # {} THEN mine ELSE same}

(*------------------------------ converting --------------------------------*)
ByValue(t) == t.name \in {"stop_times", "trips"}
\* two ids with one original text: which translation is meant depends on the record
Ambiguous(old, main, x) == Cardinality({i \in Ids(old) : TextOf(old, i, main) = x}) > 1
CellEntries(old, main, t, r, k) ==
  LET v == t.rows[r][k]  f == t.cols[k] IN
  IF ~Translatable(f) \/ v \notin Ids(old) THEN {}
  ELSE LET x == Original(old, main, v)  byrec == ~ByValue(t) \/ Ambiguous(old, main, x) IN
       {[table |-> t.name, field |-> f, lang |-> l, text |-> TextOf(old, v, l),
         rid |-> IF byrec THEN Rid(t, r) ELSE "", sub |-> IF byrec THEN Sub(t, r) ELSE "", val |-> IF byrec THEN "" ELSE x]
         : l \in {l \in Langs(old) \ {main} : Has(old, v, l)}}
RowEntries(old, main, t, r) == UNION {CellEntries(old, main, t, r, k) : k \in DOMAIN t.cols}
NewCell(old, main, t, r, k) == IF Translatable(t.cols[k]) THEN Original(old, main, t.rows[r][k]) ELSE t.rows[r][k]
NewRow(old, main, t, r) == [k \in DOMAIN t.cols |-> NewCell(old, main, t, r, k)]

(*------------------------------ keeping ------------------------------------*)
\* every text of a record is read as before
KeptCell(old, main, t, new, r, k) ==
  LET v == t.rows[r][k]  f == t.cols[k] IN
  Translatable(f) /\ v \in Ids(old) =>
    \A l \in Langs(old) \ {main} :
      Resolved(new, t, f, Rid(t, r), Sub(t, r), Original(old, main, v), l) = (IF Has(old, v, l) THEN {TextOf(old, v, l)} ELSE {})
KeptRow(old, main, t, new, r) == \A k \in DOMAIN t.cols : KeptCell(old, main, t, new, r, k)
\* and no entry is for something else
Backed(old, main, tables, e) ==
  /\ e.lang # main
  /\ \E i \in DOMAIN tables : tables[i].name = e.table /\ \E k \in DOMAIN tables[i].cols : tables[i].cols[k] = e.field /\ Translatable(e.field) /\
       \E r \in DOMAIN tables[i].rows : LET v == tables[i].rows[r][k] IN
         /\ Has(old, v, e.lang) /\ TextOf(old, v, e.lang) = e.text
         /\ \/ e.val = "" /\ e.rid = Rid(tables[i], r) /\ e.sub = Sub(tables[i], r)
            \/ e.rid = "" /\ e.sub = "" /\ e.val # "" /\ e.val = Original(old, main, v)
=============================================================================
