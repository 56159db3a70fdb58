----------------------------- MODULE UnusualMC -----------------------------
EXTENDS Unusual
CONSTANTS N
VARIABLES w
Trips == [route : {1, 2}, stops : {<<1>>, <<1, 2>>}, mark : {"", "0", "x"}]
Runs == [op : {"filter"}, num : {0, 1, 2, 3}, den : {3}, force : BOOLEAN, type : {-1, 1, 3}]
Init == w = [types |-> <<1, 3>>, trips |-> <<>>]
Next == /\ Len(w.trips) < N /\ \E t \in Trips : w' = Do(w, [op |-> "add", t |-> t])
\* filtering twice changes nothing more
Idempotent == \A e \in Runs : Filter(Filter(w, e), e) = Filter(w, e)
\* other routes keep their marks; nothing but marks changes
Untouched == \A e \in Runs : \A j \in DOMAIN w.trips :
               LET f == Filter(w, e) IN
               /\ f.trips[j].stops = w.trips[j].stops /\ f.types = w.types
               /\ ~Asked(w, e, j) => f.trips[j] = w.trips[j]
               /\ (~e.force /\ w.trips[j].mark # "") => f.trips[j] = w.trips[j]
\* trips of one route with one pattern are marked alike when overriding
Alike == \A e \in Runs : e.force => \A j, k \in DOMAIN w.trips :
               (Asked(w, e, j) /\ w.trips[j].route = w.trips[k].route /\ w.trips[j].stops = w.trips[k].stops)
               => Filter(w, e).trips[j].mark = Filter(w, e).trips[k].mark
\* no more than the threshold's share times the number of patterns becomes unusual; a threshold of zero marks none
ZeroMarksNone == \A e \in Runs : e.num = 0 => \A j \in DOMAIN w.trips : ~Rare(w, e, j)
\* a greater threshold never turns an unusual trip usual
Monotone == \A e \in Runs : \A j \in DOMAIN w.trips : Rare(w, e, j) => Rare(w, [e EXCEPT !.num = @ + 1], j)
\* under a threshold of one half or less some pattern of every route remains usual if it has at most two patterns
SomeUsual == \A r \in {1, 2} : OfRoute(w, r) # {} => \E j \in OfRoute(w, r) : ~Rare(w, [num |-> 1, den |-> 3], j)
=============================================================================
