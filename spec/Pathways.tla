------------------------------ MODULE Pathways ------------------------------
(* The drawing of the pathways of stations (visualize_pathways.py): boxes for *)
(* stations and for platforms that have boarding areas, a node for every      *)
(* other location, an arrow for every pathway.                                *)
EXTENDS Sequences, Naturals, FiniteSets, SequencesExt, FiniteSetsExt, TLC
(* locs: [id, type, name, code, sign, parent] with type 0 .. 4 (platform, station, entrance, generic node, boarding area)
   paths: [id, from, to, mode, both, sign, rsign];  opts: a sequence of ids, empty for every station that has pathways *)
Elems(q) == {q[i] : i \in DOMAIN q}
Ids(locs) == {x.id : x \in Elems(locs)}
Loc(locs, id) == CHOOSE x \in Elems(locs) : x.id = id
Linked(locs, paths) == /\ \A x \in Elems(locs) : x.parent = "" \/ x.parent \in Ids(locs)
                       /\ \A p \in Elems(paths) : p.from \in Ids(locs) /\ p.to \in Ids(locs)
\* parents are at most two steps away
Root(locs, id) == LET x == Loc(locs, id) IN IF x.parent = "" THEN id ELSE LET y == Loc(locs, x.parent) IN IF y.parent = "" THEN y.id ELSE y.parent
Kids(locs, id) == {x \in Elems(locs) : x.parent = id}
Ends(paths) == UNION {{p.from, p.to} : p \in Elems(paths)}
Known(locs, opts) == \A i \in DOMAIN opts : opts[i] \in Ids(locs)
ChosenRoots(locs, paths, opts) == IF opts = <<>> THEN {Root(locs, x) : x \in Ends(paths)} ELSE {Root(locs, x) : x \in Elems(opts)}
Chosen(locs, paths, opts) == LET R == ChosenRoots(locs, paths, opts) IN {x \in Elems(locs) : Root(locs, x.id) \in R}

\* what is shown
Shown(s, n) == IF n > 0 /\ Len(s) > n THEN SubSeq(s, 1, n - 4) \o ".." \o SubSeq(s, Len(s) - 1, Len(s)) ELSE s
Label(x, n) == <<x.id>> \o (IF x.code # "" THEN <<"Platform " \o x.code>> ELSE IF x.sign # "" THEN <<x.sign>> ELSE IF x.name # "" THEN <<Shown(x.name, n)>> ELSE <<>>)
Colours == <<"lightskyblue", "lightyellow", "lightcoral", "lightgrey", "springgreen">>
Forms == <<"box", "polygon", "doubleoctagon", "hexagon", "oval">>
Modes == <<"unknown", "walkway", "stairs", "moving_sidewalk", "escalator", "elevator", "fare_gate", "exit_gate">>
Boxed(locs, x) == x.parent # "" /\ x.type = 0 /\ Kids(locs, x.id) # {}
Top(locs, x) == x.parent = ""
\* a stop without a station has a box of its own, and is a node in it unless its boarding areas are
Noded(locs, x) == ~Boxed(locs, x) /\ (Top(locs, x) => x.type # 1 /\ Kids(locs, x.id) = {})
TopBox(x) == [id |-> x.id, within |-> "", label |-> Label(x, 0), colour |-> Colours[x.type + 1]]
SubBox(x) == [id |-> x.id, within |-> x.parent, label |-> Label(x, 20), colour |-> Colours[x.type + 1]]
NodeOf(locs, x) == [id |-> x.id, box |-> IF x.type = 4 THEN x.parent ELSE Root(locs, x.id), label |-> Label(x, 25), colour |-> Colours[x.type + 1], form |-> Forms[x.type + 1]]
EdgeOf(p) == [from |-> p.from, to |-> p.to, dir |-> IF p.both THEN "both" ELSE "forward",
              label |-> <<Modes[p.mode + 1]>> \o (IF p.sign # "" THEN <<Shown(p.sign, 20)>> ELSE <<>>) \o (IF p.rsign # "" THEN <<Shown(p.rsign, 20)>> ELSE <<>>)]

\* the drawing, as a whole
BoxesOf(locs, paths, opts) == LET C == Chosen(locs, paths, opts) IN {TopBox(x) : x \in {y \in C : Top(locs, y)}} \cup {SubBox(x) : x \in {y \in C : Boxed(locs, y)}}
NodesOf(locs, paths, opts) == {NodeOf(locs, x) : x \in {y \in Chosen(locs, paths, opts) : Noded(locs, y)}}
DrawnPaths(locs, paths, opts) == LET I == {x.id : x \in Chosen(locs, paths, opts)} IN {i \in DOMAIN paths : paths[i].from \in I /\ paths[i].to \in I}
Count(q, e) == Cardinality({i \in DOMAIN q : q[i] = e})
EdgesOk(locs, paths, opts, edges) ==
  LET D == DrawnPaths(locs, paths, opts) IN
  /\ Len(edges) = Cardinality(D)
  /\ \A i \in D : Count(edges, EdgeOf(paths[i])) = Cardinality({j \in D : EdgeOf(paths[j]) = EdgeOf(paths[i])})
=============================================================================
