----------------------------- MODULE FaresTrace -----------------------------
EXTENDS Fares, TraceIO, SequencesExt
VARIABLES c, l, s
CStart(case) == Empty
CPost(w, e) == CASE e.op = "route" -> AddRoute(w, e.x)
                 [] e.op = "stop" -> AddStop(w, e.x)
                 [] e.op = "fare" -> AddFare(w, e.x)
                 [] e.op = "rule" -> AddRule(w, e.x)
                 [] e.op = "load" -> LoadTransfer(w, e.x)
                 [] e.op = "add" -> AddTransfer(w, e.x)
                 [] OTHER -> w
Bag(q) == [x \in ToSet(q) |-> Cardinality({i \in DOMAIN q : q[i] = x})]
EqBag(p, q) == Bag(p) = Bag(q)
CClauses(w, y, e) ==
  CASE e.op \in {"route", "stop"} -> <<>>
    [] e.op = "fare" -> << <<"reported for the fare", EqBag(e.o.rep, FareReport(w, e.x))>> >>
    [] e.op = "rule" -> << <<"reported for the fare rule", EqBag(e.o.rep, RuleDefects(w, e.x))>> >>
    [] e.op = "load" -> << <<"reported for the transfer", EqBag(e.o.rep, LoadReport(w, e.x))>> >>
    [] e.op = "add" -> << <<"reported for the added transfer", EqBag(e.o.rep, DupReport(w, e.x))>>,
                          <<"reported to the schedule's reporter instead", e.o.stray = 0>> >>
    [] e.op = "validate" -> << <<"reported when validated", EqBag(e.o.rep, ValidateReport(w, e.x))>> >>
    [] e.op = "state" -> <<
         <<"zones", ToSet(e.o.zones) = w.zones /\ Len(e.o.zones) = Cardinality(w.zones)>>,
         <<"fares", {<<f.id, f.tag>> : f \in ToSet(e.o.fares)} = {<<i, w.fares[i].tag>> : i \in DOMAIN w.fares} /\ Len(e.o.fares) = Cardinality(DOMAIN w.fares)>>,
         <<"rules of each fare", \A f \in ToSet(e.o.fares) : f.id \in DOMAIN w.fares => f.rules = w.fares[f.id].rules>>,
         <<"transfers", EqBag(e.o.transfers, [i \in DOMAIN w.transfers |-> w.transfers[i].tag])>>,
         <<"nothing else reported", e.o.other = <<>> >> >>
INSTANCE TraceLib WITH Start <- CStart, Post <- CPost, Clauses <- CClauses, TheCases <- Cases
==============================================================================
