--------------------------- MODULE PathwaysTrace ----------------------------
EXTENDS Pathways, TraceIO
VARIABLES c, l, s
CStart(case) == [locs |-> case.locs, paths |-> case.paths]
CPost(w, e) == w
Bag(q, X) == Len(q) = Cardinality(X) /\ Elems(q) = X
CClauses(w, y, e) ==
  LET o == e.o IN
  IF ~Linked(w.locs, w.paths) \/ ~Known(w.locs, e.opts) THEN << <<"it is refused", o.err # "">>, <<"nothing is drawn", ~o.written>> >>
  ELSE << <<"it is drawn: " \o o.err, o.err = "">>,
          <<"in the file asked for", o.written>>,
          <<"well formed: " \o o.bad, o.bad = "">>,
          <<"the boxes", Bag(o.boxes, BoxesOf(w.locs, w.paths, e.opts))>>,
          <<"the nodes", Bag(o.nodes, NodesOf(w.locs, w.paths, e.opts))>>,
          <<"the arrows", EdgesOk(w.locs, w.paths, e.opts, o.edges)>> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
=============================================================================
