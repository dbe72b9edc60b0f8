-------------------------------- MODULE Tags --------------------------------
(* Predecessor releases of a version among the tags of a repository.
   Tags are strings; components are separated by dots and dashes, letter case
   does not matter, numbers can have any number of digits.                  *)
EXTENDS Naming, TLC

Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZÀÉÖΩ"
Lower30 == "abcdefghijklmnopqrstuvwxyzàéöω"
Ascii == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~ÀÉÖàéöΩω"
Ch(s, i) == Sub(s, i, i)
OrdTable == [ch \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |-> Min(Positions(Ascii, ch))]
Ord(ch) == IF ch \in DOMAIN OrdTable THEN OrdTable[ch] ELSE 0
LowerTable == [ch \in {Ch(Upper, i) : i \in 1..Len(Upper)} |-> Ch(Lower30, Min(Positions(Upper, ch)))]
LowerCh(ch) == IF ch \in DOMAIN LowerTable THEN LowerTable[ch] ELSE ch
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(Sub(s, 2, Len(s)))

RECURSIVE Slice_(_, _)
Slice_(s, part) ==
    IF s = "" THEN <<part>>
    ELSE LET ch == Ch(s, 1) rest == Sub(s, 2, Len(s)) IN
         IF ch = "." \/ ch = "-" THEN <<part>> \o Slice_(rest, "") ELSE Slice_(rest, part \o ch)
SliceOf(s) == Slice_(Lower(s), "")
Slice(s) == SliceOf(s)                    \* components of a tag or version

DigitTable == [ch \in {Ch("0123456789", i) : i \in 1..10} |-> Min(Positions("0123456789", ch)) - 1]
IsDigit(ch) == ch \in DOMAIN DigitTable
IsNumber(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(Ch(s, i))
RECURSIVE Strip0(_)
Strip0(s) == IF s # "" /\ Ch(s, 1) = "0" THEN Strip0(Sub(s, 2, Len(s))) ELSE s
SameNumber(a, b) == IsNumber(a) /\ IsNumber(b) /\ Strip0(a) = Strip0(b)
Positive(s) == IsNumber(s) /\ Strip0(s) # ""

Digit(ch) == DigitTable[ch]
RECURSIVE Dec(_)
Dec(s) ==                                 \* s - 1, for positive s, in digits
    LET k == Len(s) d == Digit(Ch(s, k)) init == Sub(s, 1, k - 1) IN
    IF d > 0 THEN init \o Ch("0123456789", d) ELSE Dec(init) \o "9"

(* natural order: -1, 0, 1 *)
RECURSIVE CmpText(_, _)
CmpText(a, b) ==
    IF a = "" /\ b = "" THEN 0 ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
    ELSE LET x == Ord(Ch(a, 1)) y == Ord(Ch(b, 1)) IN
         IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpText(Sub(a, 2, Len(a)), Sub(b, 2, Len(b)))
CmpNumber(a, b) ==
    LET x == Strip0(a) y == Strip0(b) IN
    IF Len(x) < Len(y) THEN -1 ELSE IF Len(x) > Len(y) THEN 1 ELSE CmpText(x, y)
DigitRun(s) == LET N == {i \in 1..Len(s) : ~IsDigit(Ch(s, i))} IN IF N = {} THEN Len(s) ELSE Min(N) - 1
RECURSIVE CmpPart(_, _)
CmpPart(a, b) ==
    IF a = "" /\ b = "" THEN 0 ELSE IF a = "" THEN -1 ELSE IF b = "" THEN 1
    ELSE LET i == DigitRun(a) j == DigitRun(b) IN
         IF i > 0 /\ j > 0
         THEN LET r == CmpNumber(Sub(a, 1, i), Sub(b, 1, j)) IN
              IF r # 0 THEN r ELSE CmpPart(Sub(a, i + 1, Len(a)), Sub(b, j + 1, Len(b)))
         ELSE LET x == Ord(Ch(a, 1)) y == Ord(Ch(b, 1)) IN
              IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE CmpPart(Sub(a, 2, Len(a)), Sub(b, 2, Len(b)))
RECURSIVE Cmp(_, _)
Cmp(a, b) ==
    IF a = <<>> /\ b = <<>> THEN 0 ELSE IF a = <<>> THEN -1 ELSE IF b = <<>> THEN 1
    ELSE LET r == CmpPart(Head(a), Head(b)) IN IF r # 0 THEN r ELSE Cmp(Tail(a), Tail(b))

(* tags which are predecessors of c at position k *)
Before(c, k, tags) ==
    LET cs == Slice(c)
        d == Dec(Strip0(cs[k])) IN
    {t \in tags : LET ts == Slice(t) IN
        /\ Len(ts) >= k
        /\ \A i \in 1..(k - 1) : ts[i] = cs[i]
        /\ SameNumber(ts[k], d)}
RECURSIVE Latest(_)                       \* those which come last
Latest(T) ==
    IF Cardinality(T) <= 1 THEN T
    ELSE LET t == CHOOSE x \in T : TRUE
             R == TLCEval(Latest(T \ {t}))
             r == Cmp(Slice(t), Slice(CHOOSE x \in R : TRUE))
         IN IF r > 0 THEN {t} ELSE IF r = 0 THEN R \cup {t} ELSE R

(* for each position with a predecessor: the tags which may be picked there (more than one only
   when tags do not differ in natural order)                                                    *)
Positions_(c) == {k \in 1..Len(Slice(c)) : Positive(Slice(c)[k])}
Selected(c, tags) == {Latest(B) : B \in {Before(c, k, tags) : k \in Positions_(c)} \ {{}}}
=============================================================================
