------------------------------- MODULE MCPack -------------------------------
(* The design of packaging: a walk through the tree, entries of every directory in some order; checked for all small trees.
   Order = "name": siblings in the order of their names, which is path order.  The other ways of walking have to be rejected.   *)
EXTENDS Pack
CONSTANTS Order, Skip

(* names a, a.b, a0, b as bytes; a tree is a set of paths which are no prefix of one another *)
Names == {<<97>>, <<97, 46, 98>>, <<97, 48>>, <<98>>}
Paths == {<<x>> : x \in Names} \cup {<<x, y>> : x \in Names, y \in {<<97>>, <<98, 46>>}}
Proper(T) == \A p, q \in T : p # q => ~(Len(p) < Len(q) /\ p[1] = q[1])
VARIABLES T, made, start          \* the tree, the order in which its files were made, the files written so far
Text(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<47>> \o p[2]
Least(S, L(_, _)) == CHOOSE x \in S : \A y \in S : x = y \/ L(x, y)
RECURSIVE Walk(_, _)
Walk(S, out) ==
    IF S = {} THEN out
    ELSE LET byname(x, y) == Before(x, y)
             astext(x, y) == LessBytes(Text(x), Text(y), 1)
             shallow(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ Before(x, y))
             x == CASE Order = "name" -> Least(S, byname) [] Order = "text" -> Least(S, astext) [] Order = "shallow" -> Least(S, shallow)
                    [] Order = "made" -> CHOOSE p \in S : \A q \in S : made[p] <= made[q]
         IN Walk(S \ {x}, Append(out, x))
Tree(S) == {[p |-> p, m |-> 420, h |-> ToString(p), s |-> 1] : p \in S}
Archive(S) == [i \in 1..Cardinality(S) |-> LET p == Walk(S, <<>>)[i] IN [t |-> "f", p |-> p, m |-> 420, h |-> ToString(p), s |-> 1]]
Init == T = {} /\ made = <<>> /\ start = 0
Next == start = 0 /\ start' = 1 /\ \E S \in {X \in SUBSET Paths : Cardinality(X) <= 4 /\ Proper(X)} :
          /\ T' = S
          /\ made' \in IF Order = "made" THEN {f \in [S -> 1..Cardinality(S)] : \A x, y \in S : x # y => f[x] # f[y]} ELSE {[p \in S |-> 0]}
Faithful == start = 1 => Unfaithful(Tree(T), Archive({p \in T : ~(Skip /\ p[1] = <<98>>)})) = {}
Total == \A p, q \in Paths : p = q \/ (Before(p, q) <=> ~Before(q, p))
=============================================================================
