----------------------------- MODULE PathwaysMC -----------------------------
(* A feed is read a row at a time, a set of locations is chosen by walking    *)
(* from stations to children, and boxes, nodes and arrows are drawn in turn.  *)
EXTENDS Pathways
CONSTANTS Shapes, PathCount, Opts
VARIABLES locs, paths, opts, phase, sel, boxes, nodes, edges
vars == <<locs, paths, opts, phase, sel, boxes, nodes, edges>>
L(i, t, p) == [id |-> i, type |-> t, name |-> "", code |-> "", sign |-> "", parent |-> p]
Feeds == << << L("S", 1, ""), L("p", 0, "S"), L("e", 2, "S"), L("b", 4, "p") >>,
            << L("b", 4, "p"), L("p", 0, "S"), L("S", 1, ""), L("T", 1, ""), L("q", 0, "T") >>,
            << L("P", 0, ""), L("b", 4, "P"), L("c", 4, "P"), L("Q", 0, "") >>,
            << L("S", 1, ""), L("g", 3, "S"), L("p", 0, "S"), L("c", 4, "p"), L("b", 4, "p"), L("T", 1, ""), L("f", 2, "T") >> >>
OptSet == {<<>>, <<"S">>, <<"p">>, <<"b">>, <<"p", "T">>, <<"b", "b">>, <<"P">>, <<"z">>, <<"S", "z">>}
Ns(q) == {x.id : x \in {y \in Elems(q) : Noded(q, y)}}
Init == /\ locs \in {Feeds[i] : i \in Shapes} /\ paths = <<>> /\ opts \in Opts
        /\ phase = "read" /\ sel = {} /\ boxes = {} /\ nodes = {} /\ edges = <<>>
Read == /\ phase = "read" /\ Len(paths) < PathCount
        /\ \E f, t \in Ns(locs), m \in {1, 2}, b \in BOOLEAN :
             paths' = Append(paths, [id |-> "w", from |-> f, to |-> t, mode |-> m, both |-> b, sign |-> "", rsign |-> ""])
        /\ UNCHANGED <<locs, opts, phase, sel, boxes, nodes, edges>>
\* choosing: from the stations down, or the locations whose station's tree has a pathway
RECURSIVE Down(_, _)
Down(q, S) == LET K == UNION {{x.id : x \in Kids(q, i)} : i \in S} IN IF K \subseteq S THEN S ELSE Down(q, S \cup K)
RECURSIVE HasPath(_, _, _)
HasPath(q, p, i) == i \in Ends(p) \/ \E x \in Kids(q, i) : HasPath(q, p, x.id)
Choose == /\ phase = "read"
          /\ phase' = IF Known(locs, opts) THEN "boxes" ELSE "refused"
          /\ sel' = IF ~Known(locs, opts) THEN {} ELSE IF opts = <<>> THEN {x.id : x \in {y \in Elems(locs) : HasPath(locs, paths, Root(locs, y.id))}}
                    ELSE Down(locs, {Root(locs, i) : i \in Elems(opts)})
          /\ UNCHANGED <<locs, paths, opts, boxes, nodes, edges>>
DrawBoxes == /\ phase = "boxes" /\ phase' = "nodes"
             /\ boxes' = {TopBox(Loc(locs, i)) : i \in {j \in sel : Loc(locs, j).parent = ""}} \cup {SubBox(Loc(locs, i)) : i \in {j \in sel : Boxed(locs, Loc(locs, j))}}
             /\ UNCHANGED <<locs, paths, opts, sel, nodes, edges>>
DrawNode == /\ phase = "nodes"
            /\ \E i \in sel : Noded(locs, Loc(locs, i)) /\ (\A n \in nodes : n.id # i) /\ nodes' = nodes \cup {NodeOf(locs, Loc(locs, i))}
            /\ UNCHANGED <<locs, paths, opts, phase, sel, boxes, edges>>
DrawEdges == /\ phase = "nodes" /\ \A i \in sel : Noded(locs, Loc(locs, i)) => \E n \in nodes : n.id = i
             /\ phase' = "done"
             /\ edges' = LET q == SelectSeq(paths, LAMBDA p : p.from \in sel /\ p.to \in sel) IN [i \in DOMAIN q |-> EdgeOf(q[i])]
             /\ UNCHANGED <<locs, paths, opts, sel, boxes, nodes>>
Next == Read \/ Choose \/ DrawBoxes \/ DrawNode \/ DrawEdges
Spec == Init /\ [][Next]_vars
Whole == phase = "done" => /\ boxes = BoxesOf(locs, paths, opts) /\ nodes = NodesOf(locs, paths, opts) /\ EdgesOk(locs, paths, opts, edges)
\* every node lies in a box that is drawn, every arrow joins nodes
Inside == phase = "done" => /\ \A n \in nodes : \E b \in boxes : b.id = n.box
                            /\ \A b \in boxes : b.within = "" \/ \E d \in boxes : d.id = b.within /\ d.within = ""
                            /\ \A i \in DOMAIN edges : {edges[i].from, edges[i].to} \subseteq {n.id : n \in nodes}
\* whole stations are chosen
Closed == sel # {} => \A x, y \in Elems(locs) : (Root(locs, x.id) = Root(locs, y.id)) => (x.id \in sel <=> y.id \in sel)
Refused == phase = "refused" => boxes = {} /\ nodes = {} /\ edges = <<>>
Each == phase = "done" => \A i \in sel : (\E n \in nodes : n.id = i) \/ (\E b \in boxes : b.id = i)
=============================================================================
