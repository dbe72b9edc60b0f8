------------------------------ MODULE MCNaming ------------------------------
(* All versions of up to N pieces, all pairs: reading a name gives back what
   was named, and different things have different names.                     *)
EXTENDS Naming, TLC
CONSTANTS Pieces, N
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE LET S == Strings(n - 1) IN S \cup {s \o p : s \in S, p \in Pieces}
Versions == {v \in Strings(N) : ValidVersion(v)}

VARIABLES f, t
Init == f \in Versions /\ t = "---"
Next == t = "---" /\ t' \in Versions /\ UNCHANGED f

BuildRoundTrip == /\ StemVersion(BuildFile(f)) = f
                  /\ IsBuildName(BuildFile(f)) /\ BuildVersion(BuildFile(f)) = f
                  /\ ~IsPatchName(BuildFile(f))
PatchRoundTrip == (t # "---" /\ f # t /\ ~AmbiguousFrom(f)) =>
                  /\ ReadPair(PatchFile(f, t)) = <<f, t>>
                  /\ \A p \in PatchPairs(PatchFile(f, t)) : p = <<f, t>> \/ AmbiguousFrom(p[1])
                  /\ <<f, t>> \in PatchPairs(PatchFile(f, t))
                  /\ ~IsBuildName(PatchFile(f, t))
(* the finding: this one is violated *)
PatchRoundTripAll == t # "---" /\ f # t => ReadPair(PatchFile(f, t)) = <<f, t>>
=============================================================================
