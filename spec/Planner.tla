------------------------------ MODULE Planner ------------------------------
(* Cheapest chains of patches in a graph.  P: set of pairs, size: P -> 1..   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Inf == 2000000000
Nodes(P) == {p[1] : p \in P} \cup {p[2] : p \in P}

(* cost of the cheapest chain from every node to t *)
RECURSIVE Relax(_, _, _, _)
Relax(P, size, d, k) ==
    IF k = 0 THEN d
    ELSE LET via(x) == {size[p] + d[p[2]] : p \in {q \in P : q[1] = x /\ d[q[2]] < Inf}}
             best(x) == LET C == via(x) \cup {d[x]} IN CHOOSE m \in C : \A y \in C : m <= y
             e == TLCEval([x \in DOMAIN d |-> best(x)])
         IN IF e = d THEN d ELSE Relax(P, size, e, k - 1)
CostTo(B, P, size, t) ==
    Relax(P, size, TLCEval([x \in B |-> IF x = t THEN 0 ELSE Inf]), Cardinality(B))

(* all cheapest chains from f to t, as sequences of pairs *)
RECURSIVE Chains(_, _, _, _, _)
Chains(P, size, d, f, t) ==
    IF f = t THEN {<<>>}
    ELSE UNION {{<<p>> \o r : r \in Chains(P, size, d, p[2], t)} :
                   p \in {q \in P : q[1] = f /\ d[q[2]] < Inf /\ size[q] + d[q[2]] = d[f]}}

(* brute force, the meaning: every chain without repeated builds *)
RECURSIVE AllChains(_, _, _, _)
AllChains(P, f, t, seen) ==
    IF f = t THEN {<<>>}
    ELSE UNION {{<<p>> \o r : r \in AllChains(P, p[2], t, seen \cup {p[2]})} :
                   p \in {q \in P : q[1] = f /\ q[2] \notin seen}}
RECURSIVE Total(_, _)
Total(size, c) == IF c = <<>> THEN 0 ELSE size[Head(c)] + Total(size, Tail(c))
=============================================================================
