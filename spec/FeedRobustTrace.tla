-------------------------- MODULE FeedRobustTrace --------------------------
(* C04: feeds with every kind of byte- and cell-level defect load and        *)
(* validate to the end; each defect is reported and the sound rows are kept. *)
EXTENDS Reader, FeedObs, TraceIO
VARIABLES c, l, s
CStart(case) == [fs |-> case.lines, lex |-> case.lex, odd |-> case.odd, w |-> Empty(case.lex, {}), rows |-> <<>>]
\* rows one after another; mute: rows with a fault of which nothing is reported
Step(a, x, seen) ==
  [w |-> Load(a.w, x),
   mute |-> IF Must(a.w, x) \cup OneOf(a.w, x) # {} /\ <<x.f, x.n>> \notin seen THEN a.mute \cup {<<x.f, x.n>>} ELSE a.mute]
LoadAll(s0, seen) == LET q == AllRows(s0.fs) IN
  FoldLeft(LAMBDA a, x : Step(a, x, seen), [w |-> Empty(s0.lex, ToSet(q)), mute |-> {}], q)
\* columns named like members of the classes need not be taken over
Hidden == {"_schedule", "trips", "rules", "_trips", "_headways", "__class__", "GetTrips", "stop", "service_period", "points", "name", "_pattern_id", "schedule",
           "keys", "iteritems", "trip_index", "pattern_id", "AddToSchedule"}
Lax(w) == [w EXCEPT !.kept = [i \in DOMAIN w.kept |-> [w.kept[i] EXCEPT !.free = @ \cup Hidden]]]
Seen(o) == {<<o.probs[i][3], o.probs[i][4]>> : i \in DOMAIN o.probs}
CPost(x, e) == IF e.op = "load" /\ e.o.crash = "" /\ "lines" \in DOMAIN e.x THEN [x EXCEPT !.w = Lax(LoadAll(x, Seen(e.o)).w)] ELSE x
Located(o) == {<<o.probs[i][1], o.probs[i][2], o.probs[i][3], o.probs[i][4], o.probs[i][5]>> : i \in DOMAIN o.probs}
\* a report fits wherever its class, level, file, line and column do
Found(o, f, r) == \E p \in Located(o) : p[1] = r[1] /\ p[2] = r[2] /\ p[3] = f /\ (r[3] = -1 \/ p[4] = r[3]) /\ (r[4] = "" \/ p[5] = r[4])
CClauses(x, y, e) ==
  IF e.op = "load" THEN
    << <<"loading completes", e.o.crash = "">>,
       <<"defects of files, headings and lines are reported", e.o.crash # "" \/
          \A f \in DOMAIN x.fs : There(x.fs, f) => \A r \in Reports(f, x.fs[f]) : Found(e.o, f, r)>>,
       <<"absent tables are reported", e.o.crash # "" \/ ~("lines" \in DOMAIN e.x) \/ \A f \in Absences(x.fs) : Found(e.o, f, <<"MissingFile", "E", -1, "">>)>>,
       <<"unknown files are reported", e.o.crash # "" \/ \A i \in DOMAIN x.odd : Found(e.o, x.odd[i], <<"UnknownFile", "W", -1, "">>)>>,
       <<"rows with a fault are reported", e.o.crash # "" \/ ~("lines" \in DOMAIN e.x) \/ LoadAll(x, Seen(e.o)).mute = {}>> >>
  ELSE IF e.op = "list" THEN
    << <<"listing completes", e.o.crash = "">> >> \o
    (IF e.o.crash # "" \/ ~("lines" \in DOMAIN e.x) THEN <<>> ELSE
      [i \in DOMAIN Order |-> <<"sound rows of " \o Order[i] \o " are kept", RowsRepresented(y.w, e.o.ents, Order[i])>>] \o
      [i \in DOMAIN Order |-> <<"entities of " \o Order[i] \o " are rows of the feed", NothingElse(y.w, e.o.ents, Order[i])>>])
  ELSE << <<(IF e.op = "validate" THEN "validation completes" ELSE "problems can be shown"), e.o.crash = "">> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
