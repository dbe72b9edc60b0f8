------------------------------- MODULE Store -------------------------------
(* What a store holds, which of it counts as builds and patches, and what
   builds and patches a command knows.

   A store maps names to entries [t, s, h, c, m, v]:
     t  "f" regular file, "l" symbolic link, "d" anything else
     s  size in bytes                h  identity of the raw bytes
     c  identity of the unpacked bytes, "-" when it cannot be unpacked
     m  (patches) sequence of pairs <<old content, new content>>: what it makes of what
     v  stamp which changes whenever the file is written anew
   A world is [L, R, O, cur]: local store, remote store, everything in the remote's bucket which is not
   directly below its path, and the `current` link.                                                   *)
EXTENDS Naming, TLC

Range(q) == {q[i] : i \in DOMAIN q}
NoFun == [x \in {} |-> x]

Full(S, n) == n \in DOMAIN S /\ S[n].t = "f" /\ S[n].s > 0

Builds(S) == {BuildVersion(n) : n \in {x \in DOMAIN S : Full(S, x) /\ IsBuildName(x)}}
(* (a version which ends in a dash makes a name that can be read as two pairs: a listed finding) *)
PairOf(n) == LET P == PatchPairs(n) C == {p \in P : ~AmbiguousFrom(p[1])} IN
             IF C # {} THEN CHOOSE p \in C : TRUE ELSE CHOOSE p \in P : TRUE
PatchesIn(S) == {PairOf(n) : n \in {x \in DOMAIN S : Full(S, x) /\ IsPatchName(x)}}

BuildNames(S) == {n \in DOMAIN S : Full(S, n) /\ IsBuildName(n)}
PatchNames(S) == {n \in DOMAIN S : Full(S, n) /\ IsPatchName(n)}
Kept(S) == TLCEval(BuildNames(S) \cup PatchNames(S))          \* what is of value in a store

KnownBuilds(w) == TLCEval(Builds(w.L) \cup Builds(w.R))
KnownPatches(w) == LET B == TLCEval(KnownBuilds(w)) IN TLCEval(
    {p \in PatchesIn(w.L) \cup PatchesIn(w.R) : p[1] \in B /\ p[2] \in B})

(* a local file shadows the remote one *)
Pick(w, n) == IF Full(w.L, n) THEN w.L[n] ELSE w.R[n]
BuildEntry(w, v) == Pick(w, BuildFile(v))
PatchEntry(w, p) == Pick(w, PatchFile(p[1], p[2]))
BuildSize(w, v) == BuildEntry(w, v).s
PatchSize(w, p) == PatchEntry(w, p).s

SameBytes(a, b) == a.h = b.h /\ a.s = b.s
SameContent(a, b) == SameBytes(a, b) \/ (a.c = b.c /\ a.c # "-")

(* patch p, as the entry e, really makes the right build out of the right build *)
Exact(e, a, b) == e.c = "p" /\ a # "-" /\ b # "-" /\ \E x \in Range(e.m) : x[1] = a /\ x[2] = b
Usable(w, p) == Exact(PatchEntry(w, p), BuildEntry(w, p[1]).c, BuildEntry(w, p[2]).c)

Installed(w) == w.cur.k = "ok"
InstalledVersion(w) == BuildVersion(w.cur.n)
=============================================================================
