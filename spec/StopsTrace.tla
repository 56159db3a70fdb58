----------------------------- MODULE StopsTrace -----------------------------
EXTENDS Stops, TraceIO, SequencesExt
VARIABLES c, l, s
CStart(case) == [i \in DOMAIN case.stops |-> [case.stops[i] EXCEPT !.bad = ToSet(@)]]
CPost(w, e) == w
Same(seq, set) == ToSet(seq) = set /\ Len(seq) = Cardinality(set)
CClauses(S, y, e) ==
  IF e.op = "row" THEN <<
    <<"defects of the row", Same(e.o.defects, RowDefects(S[e.stop]))>> >>
  ELSE <<
    <<"unused stops", Same(e.o.unused, Unused(S))>>,
    <<"used stations", Same(e.o.usedstations, UsedStations(S))>>,
    <<"missing parents", Same(e.o.noparent, NoParent(S))>>,
    <<"parents that are no stations", Same(e.o.nostation, ParentNoStation(S))>>,
    <<"stops far from their parent", Same(e.o.far, FarFromParent(S))>>,
    <<"stops too close", {ToSet(p) : p \in ToSet(e.o.close0)} = ClosePairs(S, 0) /\ Len(e.o.close0) = Cardinality(ClosePairs(S, 0))>>,
    <<"stations too close", {ToSet(p) : p \in ToSet(e.o.close1)} = ClosePairs(S, 1) /\ Len(e.o.close1) = Cardinality(ClosePairs(S, 1))>>,
    <<"stops too close to a foreign station", Same(e.o.foreign, ForeignStation(S))>>,
    <<"rows reported again", e.children => Same(e.o.rows, UNION {{<<i, d>> : d \in RowDefects(S[i]) \cap {"description repeats name", "station with parent", "child with time zone", "near origin", "missing stop_name"}} : i \in DOMAIN S})>>,
    <<"nothing else", e.o.other = <<>> >> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
