------------------------------ MODULE Consist ------------------------------
(* Agreement between the agencies, routes, trips and shapes of a schedule.   *)
(* w = [ags, lang, routes, trips, shapes, dups]:                              *)
(*   ags    : [id, name, tz, lang]        lang : the feed's language ("" none) *)
(*   routes : [id, short, long, slow, llow, desc, colour, text, type, agency]  *)
(*            slow and llow are the names trimmed and in lower case; colour and *)
(*            text are <<r, g, b>> or <<>>                                      *)
(*   trips  : [id, route, service, start, stops, shape]; route and shape are    *)
(*            positions (shape 0: none), stops a sequence of stop positions     *)
(*   shapes : their ids       dups : whether duplicate trips are looked for     *)
EXTENDS Sequences, Integers, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Elems(q) == {q[i] : i \in DOMAIN q}
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})

Zones(w) == {w.ags[i].tz : i \in DOMAIN w.ags}
Foreign(w) == IF w.lang = "" THEN {} ELSE {i \in DOMAIN w.ags : w.ags[i].lang # "" /\ w.ags[i].lang # w.lang}
Nameless(w) == IF Len(w.ags) > 1 THEN {i \in DOMAIN w.ags : w.ags[i].id = ""} ELSE {}
Orphans(w) == {i \in DOMAIN w.routes : w.routes[i].agency # "" /\ \A j \in DOMAIN w.ags : w.ags[j].id # w.routes[i].agency}

NameOf(w, i) == <<w.routes[i].slow, w.routes[i].llow>>
SameName(w, i) == {j \in DOMAIN w.routes : NameOf(w, j) = NameOf(w, i)}
KeyOf(w, i) == <<w.trips[i].service, w.trips[i].start, w.trips[i].stops>>
SameTrip(w, i) == {j \in DOMAIN w.trips : KeyOf(w, j) = KeyOf(w, i)}
\* pairs: sets of two members; a group of k is named by k - 1 pairs that name all of it
Pairing(pairs, G) == LET P == {p \in DOMAIN pairs : pairs[p] \cap G # {}} IN
                     /\ Cardinality(P) = Cardinality(G) - 1
                     /\ \A p \in P : pairs[p] \subseteq G /\ Cardinality(pairs[p]) = 2
                     /\ Cardinality(G) > 1 => UNION {pairs[p] : p \in P} = G
NamesOk(w, pairs) == \A i \in DOMAIN w.routes : NameOf(w, i) # <<"", "">> => Pairing(pairs, SameName(w, i))
TripsOk(w, pairs) == IF ~w.dups THEN pairs = <<>> ELSE \A i \in DOMAIN w.trips : w.trips[i].stops # <<>> => Pairing(pairs, SameTrip(w, i))

RouteType(w, t) == w.routes[w.trips[t].route].type
Serving(w, stop, type) == {w.trips[t].route : t \in {u \in DOMAIN w.trips : RouteType(w, u) = type /\ stop \in Elems(w.trips[u].stops)}}
Mixed(w) == {s \in UNION {Elems(w.trips[t].stops) : t \in DOMAIN w.trips} : Serving(w, s, 1) # {} /\ Serving(w, s, 3) # {}}
MixedOk(w, q) == /\ \A i \in DOMAIN q : q[i].stop \in Mixed(w) /\ q[i].subway \in Serving(w, q[i].stop, 1) /\ q[i].bus \in Serving(w, q[i].stop, 3)
                 /\ \A s \in Mixed(w) : Cardinality({i \in DOMAIN q : q[i].stop = s}) = 1
Unused(w) == DOMAIN w.shapes \ {w.trips[t].shape : t \in DOMAIN w.trips}

\* what is wrong with a route by itself: <<column, level>>, in no order
Abs(x) == IF x < 0 THEN -x ELSE x
Lum(c) == 299 * c[1] + 587 * c[2] + 114 * c[3]                     \* thousandths
Starts(l, s) == Len(l) >= Len(s) /\ SubSeq(l, 1, Len(s)) = s
KnownTypes == 0 .. 7
RouteDefects(r) ==
  (IF r.short = "" /\ r.long = "" THEN << <<"route_short_name", "E">> >> ELSE <<>>)
  \o (IF Len(r.short) > 6 THEN << <<"route_short_name", "W">> >> ELSE <<>>)
  \o (IF r.short # "" /\ r.long # "" /\ \E m \in {" ", "(", "-"} : Starts(r.llow, r.slow \o m) THEN << <<"route_long_name", "W">> >> ELSE <<>>)
  \o (IF r.short # "" /\ r.long # "" /\ r.slow = r.llow THEN << <<"route_long_name", "W">> >> ELSE <<>>)
  \o (IF r.desc # "" /\ r.desc \in {r.short, r.long} THEN << <<"route_desc", "E">> >> ELSE <<>>)
  \o (IF r.type \notin KnownTypes THEN << <<"route_type", "W">> >> ELSE <<>>)
  \o (IF 7 * Abs(Lum(IF r.colour = <<>> THEN <<255, 255, 255>> ELSE r.colour) - Lum(IF r.text = <<>> THEN <<0, 0, 0>> ELSE r.text)) < 510000
      THEN << <<"route_color", "W">> >> ELSE <<>>)
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
ValueOf(r, col) == CASE col = "route_short_name" -> r.short [] col = "route_long_name" -> r.long [] col = "route_desc" -> r.desc [] OTHER -> ""
Located(r) == [i \in DOMAIN RouteDefects(r) |-> <<RouteDefects(r)[i][1], ValueOf(r, RouteDefects(r)[i][1]), RouteDefects(r)[i][2]>>]
AllDefects(w) == FlattenSeq([i \in DOMAIN w.routes |-> Located(w.routes[i])])

Edit(w, e) == CASE e.op = "agency" -> [w EXCEPT !.ags[e.at] = e.new]
                [] e.op = "feed" -> [w EXCEPT !.lang = e.new]
                [] e.op = "route" -> [w EXCEPT !.routes[e.at] = e.new]
                [] e.op = "trip" -> [w EXCEPT !.trips[e.at] = e.new]
                [] OTHER -> w
=============================================================================
