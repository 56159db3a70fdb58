------------------------------- MODULE Editor -------------------------------
(* The location editor: a viewer whose stops can be moved, and whose schedule *)
(* can be saved over the feed it came from.                                   *)
(* w = [feed, file, rest]: the schedule being shown (as in Viewer), the       *)
(* places of the stops in the saved feed, and (a digest of) all else in it.   *)
(* Requests: move(id, lat, lng), save, and the viewer's; start again.         *)
(* Coordinates are whole thousandths of a degree.                             *)
EXTENDS ViewerAns
Places(f) == [i \in DOMAIN f.stops |-> <<f.stops[i].id, f.stops[i].lat, f.stops[i].lon>>]
Abs1(n) == IF n < 0 THEN -n ELSE n
OnEarth(p) == /\ Is(p.lat, "num") /\ Is(p.lng, "num") /\ Abs1(p.lat.n) <= 90000 /\ Abs1(p.lng.n) <= 180000
CanMove(f, p) == Stop1(f, Id(p.id)) # 0 /\ OnEarth(p)
\* a move is of one stop, whole, or is refused and moves nothing
Moved(f, p) == IF ~CanMove(f, p) THEN f
               ELSE [f EXCEPT !.stops[Stop1(f, Id(p.id))].lat = p.lat.n, !.stops[Stop1(f, Id(p.id))].lon = p.lng.n]
Move(w, p) == [w EXCEPT !.feed = Moved(w.feed, p)]
\* where: whether the feed is a file (a directory is not written over)
Save(w, where) == IF where = "file" THEN [w EXCEPT !.file = Places(w.feed)] ELSE w
\* the editor is ended and started again with the saved feed
PlaceOf(q, id) == q[PosOf(q, LAMBDA x : x[1] = id)]
Restart(w) == [w EXCEPT !.feed.stops = [i \in DOMAIN w.feed.stops |-> LET x == PlaceOf(w.file, w.feed.stops[i].id) IN
                                          [w.feed.stops[i] EXCEPT !.lat = x[2], !.lon = x[3]]]]
=============================================================================
