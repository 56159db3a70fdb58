------------------------------ MODULE EditorMC ------------------------------
(* The editor at work: a move reads its parameters one by one and is only     *)
(* then done; the saved feed is written in one go; it may end at any moment.  *)
EXTENDS Editor
CONSTANTS Coords, Steps
VARIABLES w, req, cur, log, n
vars == <<w, req, cur, log, n>>
Num1(x) == [k |-> "num", t |-> "", low |-> "", n |-> x]
Txt(x) == [k |-> "text", t |-> x, low |-> x, n |-> 0]
None0 == [k |-> "none", t |-> "", low |-> "", n |-> 0]
Stop0(i) == [id |-> i, name |-> "n", lat |-> 0, lon |-> 0, type |-> 0, lowid |-> "", lowname |-> "n"]
Feed1 == [stops |-> <<Stop0("a"), Stop0("b")>>, routes |-> <<>>, per |-> <<>>, trips |-> <<>>, rank |-> <<>>]
Par == {None0} \cup {Num1(x) : x \in Coords}
MCCoords == {0, 5, 90000, 90001, 180001}
Reqs == [id : {Txt("a"), Txt("b"), Txt("z"), None0}, lat : Par, lng : Par]
Idle == [id |-> None0, lat |-> None0, lng |-> None0]
Init == w = [feed |-> Feed1, file |-> Places(Feed1), rest |-> "r"] /\ req = Idle /\ cur = "idle" /\ log = <<>> /\ n = 0
Ask == cur = "idle" /\ n < Steps /\ n' = n + 1 /\ \E r \in Reqs : req' = r /\ cur' = "stop" /\ UNCHANGED <<w, log>>
Refuse == cur' = "idle" /\ req' = Idle /\ UNCHANGED <<w, log, n>>
FindStop == cur = "stop" /\ IF Stop1(w.feed, Id(req.id)) = 0 THEN Refuse ELSE cur' = "lat" /\ UNCHANGED <<w, req, log, n>>
ReadLat == cur = "lat" /\ IF ~(Is(req.lat, "num") /\ Abs1(req.lat.n) <= 90000) THEN Refuse ELSE cur' = "lng" /\ UNCHANGED <<w, req, log, n>>
ReadLng == cur = "lng" /\ IF ~(Is(req.lng, "num") /\ Abs1(req.lng.n) <= 180000) THEN Refuse ELSE cur' = "move" /\ UNCHANGED <<w, req, log, n>>
DoMove == /\ cur = "move" /\ cur' = "idle" /\ req' = Idle /\ UNCHANGED n
          /\ w' = [w EXCEPT !.feed.stops[Stop1(w.feed, Id(req.id))].lat = req.lat.n, !.feed.stops[Stop1(w.feed, Id(req.id))].lon = req.lng.n]
          /\ log' = Append(log, <<req.id.t, req.lat.n, req.lng.n>>)
DoSave == cur = "idle" /\ n < Steps /\ n' = n + 1 /\ w' = Save(w, "file") /\ log' = Append(log, <<"save", 0, 0>>) /\ UNCHANGED <<req, cur>>
\* ended at any moment, also within a request
End == n < Steps /\ n' = n + 1 /\ w' = Restart(w) /\ cur' = "idle" /\ req' = Idle /\ log' = Append(log, <<"end", 0, 0>>)
Next == Ask \/ FindStop \/ ReadLat \/ ReadLng \/ DoMove \/ DoSave \/ End
Spec == Init /\ [][Next]_vars
\* the history tells the state: a stop is where its last move not undone by an end put it
RECURSIVE Play(_, _, _)
Play(q, live, saved) == IF q = <<>> THEN <<live, saved>>
  ELSE LET x == q[1] IN
       CASE x[1] = "save" -> Play(Tail(q), live, live)
         [] x[1] = "end" -> Play(Tail(q), saved, saved)
         [] OTHER -> Play(Tail(q), [i \in DOMAIN live |-> IF live[i][1] = x[1] THEN x ELSE live[i]], saved)
History == LET r == Play(log, Places(Feed1), Places(Feed1)) IN Places(w.feed) = r[1] /\ w.file = r[2]
AllOnEarth == \A i \in DOMAIN w.feed.stops : Abs1(w.feed.stops[i].lat) <= 90000 /\ Abs1(w.feed.stops[i].lon) <= 180000
\* a request that is answered leaves what Move says
Ended == LET q == log' IN q[Len(q)][1] = "end"
Answered == cur = "move" /\ cur' = "idle" /\ ~Ended
MoveIsMove == [][Answered => (w' = Move(w, req))]_vars
Refused == cur \in {"stop", "lat", "lng"} /\ cur' = "idle" /\ log' = log
RefusedMovesNothing == [][Refused => (w' = w /\ ~CanMove(w.feed, req))]_vars
Rest1 == w.rest
RestKept == [][Rest1' = Rest1]_vars
=============================================================================
