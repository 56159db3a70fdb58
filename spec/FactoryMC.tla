----------------------------- MODULE FactoryMC -----------------------------
EXTENDS Factory
CONSTANTS Depth
VARIABLES fs, last, n
Names == {"transfers.txt", "x.txt", "y.txt"}
Cls == {"Transfer", "X"}
Ms == [has : {Fields}, req : {TRUE}, ord : {30, 35, NoOrder}, cl : {<<"X">>, <<"X", "Transfer">>}]
        \cup [has : {{"req", "ord"}}, req : {TRUE}, ord : {5}, cl : {<<>>}]
Ops == [op : {"addmap", "updmap"}, f : {1, 2}, n : Names, m : Ms] \cup [op : {"rmmap"}, f : {1, 2}, n : Names]
       \cup [op : {"addclass", "updclass"}, f : {1, 2}, n : Cls, v : {"A", "B"}] \cup [op : {"rmclass"}, f : {1, 2}, n : Cls]
Init == fs = <<New, New>> /\ last = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E e \in Ops : fs' = Do(fs, e) /\ last' = <<fs, e>>
Spec == Init /\ [][Next]_<<fs, last, n>>
View == <<fs, n>>
OnePerName == \A k \in 1..2 : \A x, y \in fs[k].files : x.n = y.n => x = y
OneClassPerName == \A k \in 1..2 : \A x, y \in fs[k].classes : x.n = y.n => x = y
OrderExists == \A k \in 1..2 : IsLoadingOrder(fs[k], SetToSortSeq(Loaded(fs[k]), LAMBDA a, b : File(fs[k], a).ord < File(fs[k], b).ord
                                              \/ (File(fs[k], a).ord = File(fs[k], b).ord /\ a = b)))
\* only the factory edited changes, a refused edit changes nothing, and only the named entry changes
Local == [][\E e \in Ops : /\ fs' = Do(fs, e) /\ fs'[3 - e.f] = fs[3 - e.f]
               /\ Refused(fs[e.f], e) # "" => fs' = fs
               /\ \A k \in Names \ {e.n} : Knows(fs[e.f], k) = Knows(fs'[e.f], k) /\ Required(fs[e.f], k) = Required(fs'[e.f], k)]_fs
AddThenRemove == \A k \in 1..2 : \A f \in Names : ~Knows(fs[k], f) =>
   Edit(Edit(fs[k], [op |-> "addmap", f |-> k, n |-> f, m |-> [has |-> Fields, req |-> TRUE, ord |-> 1, cl |-> <<"X">>]]), [op |-> "rmmap", f |-> k, n |-> f]) = fs[k]
=============================================================================
