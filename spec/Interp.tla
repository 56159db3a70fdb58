------------------------------- MODULE Interp -------------------------------
(* Interpolation of the untimed stops of a trip.  A pattern is a sequence of  *)
(* times (seconds or None) and legs, legs[i] the distance from stop i to i+1. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
None == -1
RECURSIVE Sum(_, _, _)
Sum(q, i, j) == IF i > j THEN 0 ELSE q[i] + Sum(q, i + 1, j)
Rejected(ts) == ts # <<>> /\ (ts[1] = None \/ ts[Len(ts)] = None)
Before(ts, i) == Max({j \in 1..i : ts[j] # None})
After(ts, i) == Min({j \in i..Len(ts) : ts[j] # None})
Abs(x) == IF x < 0 THEN -x ELSE x
\* v is the time of stop i, rounded to a whole second (or off by up to tol more)
IsTime(ts, legs, i, v, tol) ==
  IF ts[i] # None THEN v = ts[i]
  ELSE LET p == Before(ts, i)
           n == After(ts, i)
           D == Sum(legs, p, n - 1)
           d == Sum(legs, p, i - 1)
       IN IF D = 0 THEN v = ts[p]
          ELSE Abs(v - ts[p]) <= Abs(ts[n] - ts[p]) + tol /\ 2 * Abs((v - ts[p]) * D - (ts[n] - ts[p]) * d) <= D * (1 + 2 * tol)
=============================================================================
