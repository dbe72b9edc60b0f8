----------------------------- MODULE MCPlanner -----------------------------
(* Every graph over N builds with patch sizes 1..Z: the costs and chains of Planner are the meaning. *)
EXTENDS Planner, TLC
CONSTANTS N, Z
B == 1..N
Pairs == {p \in B \X B : p[1] # p[2]}
VARIABLES todo, size
Init == todo = Pairs /\ size = [p \in {} |-> 0]
Next == \E p \in todo : /\ \A q \in todo : p[1] * 10 + p[2] <= q[1] * 10 + q[2]
                        /\ todo' = todo \ {p}
                        /\ \E z \in 0..Z : size' = IF z = 0 THEN size ELSE [q \in DOMAIN size \cup {p} |-> IF q = p THEN z ELSE size[q]]
P == DOMAIN size
\* (for one pair of builds: among all graphs are those in which any other pair has its place)
Right == todo = {} => LET f == 1 t == 2 IN
    LET all == AllChains(P, f, t, {f})
        d == CostTo(B, P, size, t)
        best == {c \in all : \A x \in all : Total(size, c) <= Total(size, x)}
    IN /\ (all = {}) = (d[f] >= Inf)
       /\ all # {} => d[f] = Total(size, CHOOSE c \in best : TRUE) /\ Chains(P, size, d, f, t) = best
=============================================================================
