------------------------------- MODULE Naming -------------------------------
(* Version names and file names, as strings.                                *)
EXTENDS Integers, Sequences, FiniteSets

Sub(s, i, j) == SubSeq(s, i, j)
HasPrefix(s, x) == Len(s) >= Len(x) /\ Sub(s, 1, Len(x)) = x
HasSuffix(s, x) == Len(s) >= Len(x) /\ Sub(s, Len(s) - Len(x) + 1, Len(s)) = x
Chop(s, n) == Sub(s, 1, Len(s) - n)
At(s, i, x) == i >= 1 /\ i + Len(x) - 1 <= Len(s) /\ Sub(s, i, i + Len(x) - 1) = x
Positions(s, x) == {i \in 1..Len(s) : At(s, i, x)}
Contains(s, x) == Positions(s, x) # {}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE Split(_, _)
Split(s, x) ==            \* parts of s between the (leftmost, non-overlapping) occurrences of x
    LET P == Positions(s, x) IN
    IF P = {} THEN <<s>>
    ELSE <<Sub(s, 1, Min(P) - 1)>> \o Split(Sub(s, Min(P) + Len(x), Len(s)), x)

-----------------------------------------------------------------------------
(* What users may call a version, and how the files of a store are called.  *)
ValidVersion(v) == ~Contains(v, "---") /\ ~Contains(v, "/")

BuildFile(v) == v \o ".tar.zst"
PatchFile(f, t) ==
    IF Contains(f, "-") \/ Contains(t, "-") THEN f \o "---" \o t \o ".patch.zst"
    ELSE f \o "-" \o t \o ".patch.zst"

(* The inverse, as the declarative meaning of a name: all pairs whose patch
   has that name.                                                           *)
BuildByName(n) == HasSuffix(n, ".tar.zst") /\ ValidVersion(Chop(n, 8))
IsBuildName(n) == BuildByName(n)
BuildVersion(n) == Chop(n, 8)
PairsByName(n) ==
    IF ~HasSuffix(n, ".patch.zst") THEN {}
    ELSE LET b == Chop(n, 10)
             Cut(i, k) == <<Sub(b, 1, i - 1), Sub(b, i + k, Len(b))>>
         IN {p \in {Cut(i, 1) : i \in Positions(b, "-")} \cup {Cut(i, 3) : i \in Positions(b, "---")} :
                /\ ValidVersion(p[1]) /\ ValidVersion(p[2]) /\ p[1] # p[2]
                /\ PatchFile(p[1], p[2]) = n}
PatchPairs(n) == PairsByName(n)      \* (Trace replaces both by tables)
IsPatchName(n) == PatchPairs(n) # {}

(* Known finding: the name of a patch from a version which ends in a dash can
   be read as another pair ("a-" -> "b" and "a" -> "-b" share a name).       *)
AmbiguousFrom(f) == HasSuffix(f, "-")

-----------------------------------------------------------------------------
(* How the code takes names apart (the design that the properties are about). *)
Stem(n) ==                \* file name without its last extension
    LET D == Positions(n, ".") IN
    IF D = {} \/ Max(D) = 1 \/ n = ".." THEN n ELSE Sub(n, 1, Max(D) - 1)
StemVersion(n) ==
    LET s == Stem(n) IN
    IF HasSuffix(s, ".tar") THEN Chop(s, 4) ELSE IF HasSuffix(s, ".patch") THEN Chop(s, 6) ELSE s
NoPair == <<"", "---">>
ReadPair(n) ==            \* pair of versions read from the name of a patch file
    LET v == StemVersion(n)
        one == Split(v, "-")
        three == Split(v, "---")
        ok(p) == ValidVersion(p[1]) /\ ValidVersion(p[2])
    IN IF Len(one) = 2 THEN one
       ELSE IF Len(three) = 2 /\ ok(three) THEN three ELSE NoPair
=============================================================================
