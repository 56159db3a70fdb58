------------------------------ MODULE GraphMC ------------------------------
EXTENDS Graph
CONSTANTS N
VARIABLES E
Pts == {0, 3, 7}
Polys == {<<a, b>> : a \in Pts, b \in Pts} \cup {<<0, 9, 3>>, <<0, 4, -2, 7>>, <<7, 3, 8, 3>>}
Init == E = {}
Next == Cardinality(E) < N /\ \E p \in Polys : (\A e \in E : e.pts # p) /\ E' = E \cup {[name |-> ToString(Cardinality(E) + 1), pts |-> p]}
\* all chains of at most three edges: none is shorter than the distance, one is as short
Names == {e.name : e \in E}
Chains == UNION {[1..k -> Names] : k \in 0..2}
Admissible == \A a, b \in Nodes(E) : Dist(E, a)[b] # None => Dist(E, a)[b] >= Abs(a - b)
Symmetric == \A a, b \in Nodes(E) : Dist(E, a)[b] = Dist(E, b)[a]
Triangle == \A a, b, m \in Nodes(E) : (Dist(E, a)[m] # None /\ Dist(E, m)[b] # None) => (Dist(E, a)[b] # None /\ Dist(E, a)[b] <= Dist(E, a)[m] + Dist(E, m)[b])
LeastOfChains == \A a, b \in Nodes(E) :
   LET L == {Len1(Walk(E, a, c)) : c \in {c \in Chains : Walk(E, a, c) # <<>> /\ Last1(Walk(E, a, c)) = b}}
   IN Dist(E, a)[b] = Best(L)      \* three nodes: two edges suffice
BeamsAgree == \A a, b \in Nodes(E) : a # b =>
   LET x == Beams(E, <<a, b>>, 1, 5) IN (x.q = <<>>) = (Dist(E, a)[b] = None) /\ (x.q # <<>> => x.q[1].len = Dist(E, a)[b])
=============================================================================
