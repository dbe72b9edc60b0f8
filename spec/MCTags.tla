------------------------------- MODULE MCTags -------------------------------
(* The meaning of tags, checked: the natural order is a total preorder, which agrees with the order of numbers; Dec is the number
   before; the selection agrees with a definition over tuples of integers for releases which are numbers only.                  *)
EXTENDS Tags
CONSTANTS Parts, Nums

RECURSIVE Value(_)
Value(s) == IF s = "" THEN 0 ELSE 10 * Value(Chop(s, 1)) + Digit(Ch(s, Len(s)))

Tops == {<<1, 1, 1>>, <<1, 10, 2>>, <<0, 2, 0>>, <<2, 0, 1>>, <<10, 1, 1>>, <<9, 9, 10>>}
Text(n) == ToString(n)
Tag(x) == Text(x[1]) \o "." \o Text(x[2]) \o "." \o Text(x[3])
Releases == Nums \X Nums \X Nums

VARIABLES a, b, d, c, T
vars == <<a, b, d, c, T>>
Init == /\ b = "" /\ d = "" /\ T = {}
        /\ \/ a \in Parts /\ c = <<>>
           \/ a = "" /\ c \in Tops
Next == \/ /\ c = <<>> /\ b = "" /\ b' \in Parts /\ d' \in Parts
           /\ UNCHANGED <<a, c, T>>
        \/ /\ c # <<>> /\ T = {} /\ (\E x, y, z \in Releases : T' = {x, y, z})
           /\ UNCHANGED <<a, b, d, c>>

Order == a # "" /\ b # "" =>
    /\ CmpPart(a, a) = 0
    /\ CmpPart(a, b) = -CmpPart(b, a)
    /\ (CmpPart(a, b) <= 0 /\ CmpPart(b, d) <= 0 => CmpPart(a, d) <= 0)
    /\ (IsNumber(a) /\ IsNumber(b) => (CmpPart(a, b) < 0 <=> Value(a) < Value(b)))
    /\ (Positive(a) => Value(Dec(Strip0(a))) = Value(a) - 1)
    /\ (SameNumber(a, b) <=> IsNumber(a) /\ IsNumber(b) /\ Value(a) = Value(b))

LexLeq(x, y) == (x[1] < y[1]) \/ ((x[1] = y[1]) /\ ((x[2] < y[2]) \/ ((x[2] = y[2]) /\ (x[3] <= y[3]))))
Want(k) == {x \in T : (\A i \in 1..(k - 1) : x[i] = c[i]) /\ x[k] = c[k] - 1}
Last(S) == CHOOSE x \in S : \A y \in S : LexLeq(y, x)
Selection == c # <<>> /\ T # {} =>
    Selected(Tag(c), {Tag(x) : x \in T}) = {{Tag(Last(Want(k)))} : k \in {j \in 1..3 : c[j] > 0 /\ Want(j) # {}}}
=============================================================================
