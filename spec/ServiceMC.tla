----------------------------- MODULE ServiceMC -----------------------------
EXTENDS Service, Json
CONSTANTS LastDay, Small
CalEnds == IF Small THEN {None, LastDay} ELSE {None, 3, LastDay}
Weeks == IF Small THEN {{}, {1, 3, 5}} ELSE {{}, {1, 3, 5}, 1..7}
ExcDays == {{}, {1}, {3, 5}}
Infos == IF Small THEN {None} ELSE {None, 3}
VARIABLES w, today, gap
D == 1..LastDay
Week(X) == [i \in 1..7 |-> i \in X]
Cals == {[start |-> a, end |-> b, dow |-> Week(x), exc |-> e] :
          a \in {None, 2, 4}, b \in CalEnds, x \in Weeks,
          e \in UNION {[X -> BOOLEAN] : X \in ExcDays}}
Init == /\ w \in {[per |-> <<p, q>>, trips |-> t, info |-> i] : p \in Cals, q \in {c \in Cals : c.start # 2},
                   t \in {<<>>, <<[per |-> 1, stops |-> 3, runs |-> 0], [per |-> 2, stops |-> 2, runs |-> 4]>>},
                   i \in {[start |-> a, end |-> None] : a \in Infos}}
        /\ today \in {3, 6} /\ gap \in {1, 2}
Next == UNCHANGED <<w, today, gap>>
Probe == 0..(LastDay + 2)
\* all service lies in the feed's range when feed info does not override it
Covers == (w.info.start = None /\ HasDates(w)) => \A d \in Probe : ActiveOn(w, d) # {} => (FeedRange(w)[1] <= d /\ d <= FeedRange(w)[2])
NoDatesNoService == ~HasDates(w) => \A d \in Probe : ActiveOn(w, d) = {}
TripsNeedService == \A d \in Probe : TripsOn(w, d) > 0 => ActiveOn(w, d) # {}
\* every idle day of a long enough idle run is in exactly one reported gap, and
\* a reported gap holds idle days only and is maximal
InGap(d, g) == g[1] <= d /\ d <= g[2]
GapsExact == HasDates(w) =>
  LET G == Gaps(w, today, gap) IN
  /\ \A g \in G : g[3] = g[2] - g[1] + 1 /\ g[3] >= gap /\ \A d \in g[1]..g[2] : TripsOn(w, d) = 0
  /\ \A d \in GapDays(w, today, gap) : Cardinality({g \in G : InGap(d, g)}) <= 1
  /\ \A d \in GapDays(w, today, gap) :
       (\A x \in d..(d + gap - 1) : x \in GapDays(w, today, gap) /\ TripsOn(w, x) = 0) => \E g \in G : InGap(d, g)
\* today without service does not alone make a gap of two
=============================================================================
