------------------------------- MODULE Blocks -------------------------------
(* Trips of one vehicle block.  w = [per, trips]: per the calendars (see      *)
(* Calendar), a trip is [block ("" if none), per (index, 0 if its calendar    *)
(* does not exist), route (FALSE if its route does not exist),                *)
(* st (sequence of <<arrival, departure>>, None if untimed)].                 *)
EXTENDS Calendar

Blocked(t) == /\ t.block # "" /\ t.route /\ t.st # <<>>
              /\ t.st[1][1] # None /\ t.st[Len(t.st)][2] # None
From(t) == t.st[1][1]
To(t) == t.st[Len(t.st)][2]

\* the time spans have more than an end point in common
Cross(a, b) == From(a) < To(b) /\ From(b) < To(a)
SharedDays(w, a, b) == ActiveDays(w.per[a.per]) \cap ActiveDays(w.per[b.per])
SameDay(w, a, b) == \/ a.per = b.per
                    \/ a.per # 0 /\ b.per # 0 /\ SharedDays(w, a, b) # {}
Conflict(w, i, j) == LET a == w.trips[i] b == w.trips[j] IN
  i < j /\ Blocked(a) /\ Blocked(b) /\ a.block = b.block /\ Cross(a, b) /\ SameDay(w, a, b)
Conflicts(w) == {<<i, j>> \in (DOMAIN w.trips) \X (DOMAIN w.trips) : Conflict(w, i, j)}
=============================================================================
