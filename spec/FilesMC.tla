------------------------------ MODULE FilesMC ------------------------------
(* Walking a path segment by segment through a tree with files outside the   *)
(* served directory: whatever the spelling, a path never leaves the root and  *)
(* names a served file only if that is where the walk ends.                   *)
EXTENDS Files
CONSTANTS Depth
VARIABLES path, at, high
vars == <<path, at, high>>
Segs == {"", ".", "..", "file", "a.css", "secret.txt", "deep"}
Served == {"a.css", "b.css"}
Init == path = <<>> /\ at = <<>> /\ high = 0
Step(s) == /\ Len(path) < Depth /\ path' = Append(path, s) /\ at' = Walk1(at, s)
           /\ high' = IF Len(at') > high THEN Len(at') ELSE high
Next == \E s \in Segs : Step(s)
Spec == Init /\ [][Next]_vars
Follows == at = Resolve(path)
Inside == Named(Served, path) # "" => at = <<"file", Named(Served, path)>> /\ Named(Served, path) \in Served
NoDots == \A i \in DOMAIN at : at[i] \notin {"", ".", ".."}
PlainIsNamed == Plain(Served, path) => Named(Served, path) = path[2]
\* a path names one thing at most, and going down and up again changes nothing
Detour == Len(path) + 2 <= Depth => \A x \in {"deep", "file"} : Named(Served, path \o <<x, "..">>) = Named(Served, path)
Absolute == \A n \in 0..Depth : Named(Served, [i \in 1..n |-> ".."] \o <<"file", "a.css">>) = "a.css"
\* one answer is right, never two different ones
Answers == [status : {200, 404}, body : Served \cup {"", "secret.txt"}, type : {"text/css"}]
Served1 == \A o, p \in Answers : (o.status = 200 /\ p.status = 200 /\ Answer(Served, path, TRUE, o) /\ Answer(Served, path, TRUE, p)) => o = p
NeverSecret == \A o \in Answers : o.body = "secret.txt" => ~Answer(Served, path, TRUE, o)
=============================================================================
