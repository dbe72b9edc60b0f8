------------------------------ MODULE Instants ------------------------------
(* What has to be so at every instant of every command, also when it is killed or some file operation fails, and when
   two commands run at the same time.  A picture is [Ls, curs, R, O]: all local stores with their current links and the remote.
   w0 is the picture before; procs is the sequence of commands that are running: [mach, cmd, ...].               *)
EXTENDS Commands

StoresOf(w) == {w.R} \cup {w.Ls[m] : m \in DOMAIN w.Ls}
HereIn(w, m) == [L |-> w.Ls[m], R |-> w.R, O |-> w.O, cur |-> w.curs[m]]
EntriesOf(w, n) == {S[n] : S \in {T \in StoresOf(w) : Full(T, n)}}
Added(procs, v) == {procs[i].cmd.src : i \in {j \in DOMAIN procs : procs[j].cmd.op \in {"add", "addpkg"} /\ procs[j].cmd.v = v /\ procs[j].cmd.src.k = "file"}}

(* the contents which version v may have *)
Legit(w0, procs, v) == {e.c : e \in EntriesOf(w0, BuildFile(v))} \cup {x.c : x \in Added(procs, v)}

CompleteBuild(w0, procs, n, e) ==
    /\ e.t = "f" /\ e.s > 0
    /\ \/ \E x \in EntriesOf(w0, n) : SameBytes(x, e)
       \/ \E x \in Added(procs, BuildVersion(n)) : x.h = e.h
       \/ e.c # "-" /\ e.c \in Legit(w0, procs, BuildVersion(n))
CompletePatch(w0, procs, n, e) ==
    /\ e.t = "f" /\ e.s > 0
    /\ \/ \E x \in EntriesOf(w0, n) : SameBytes(x, e)
       \/ \E a \in Legit(w0, procs, PairOf(n)[1]), b \in Legit(w0, procs, PairOf(n)[2]) : Exact(e, a, b)

Same(S0, S, n) == n \in DOMAIN S0 /\ S[n].t = S0[n].t /\ S[n].s = S0[n].s /\ S[n].h = S0[n].h
Incomplete(w0, procs, S0, S) ==
    {n \in DOMAIN S : ~Same(S0, S, n) /\ \/ IsBuildName(n) /\ ~CompleteBuild(w0, procs, n, S[n])
                                         \/ IsPatchName(n) /\ ~CompletePatch(w0, procs, n, S[n])}
Lost(S0, S) == {n \in Kept(S0) : ~Full(S, n)}

BadFiles(w0, procs, w) ==
    If(\E m \in DOMAIN w.Ls : Incomplete(w0, procs, w0.Ls[m], w.Ls[m]) # {}, "an incomplete or wrong file is visible in a local store")
    \cup If(Incomplete(w0, procs, w0.R, w.R) # {}, "an incomplete or wrong file is visible in the remote")
    \cup If(\E m \in DOMAIN w.Ls : Lost(w0.Ls[m], w.Ls[m]) # {}, "a file is gone from a local store")
    \cup If(Lost(w0.R, w.R) # {}, "a file is gone from the remote")
    \cup If(w.O # w0.O, "something changed outside of the remote's path")

Targets(procs, m) == {BuildFile(procs[i].cmd.v) : i \in {j \in DOMAIN procs : procs[j].cmd.op = "install" /\ procs[j].mach = m}}
LinkOk(c0, c, T) ==
    CASE c0.k = "ok" -> c.k = "ok" /\ c.in /\ c.n \in {c0.n} \cup T
      [] c0.k = "none" -> c.k = "none" \/ (c.k = "ok" /\ c.in /\ c.n \in T)
      [] c0.k = "dangling" -> (c.k = "dangling" /\ c.n = c0.n) \/ (c.k = "ok" /\ c.n \in T \cup {c0.n})
      [] OTHER -> FALSE
(* ... and to a complete build *)
LinkedComplete(w0, procs, w, m) == w.curs[m].k = "ok" =>
    LET n == w.curs[m].n IN n \in DOMAIN w.Ls[m] /\ (Same(w0.Ls[m], w.Ls[m], n) \/ CompleteBuild(w0, procs, n, w.Ls[m][n]))
BadLinks(w0, procs, w) ==
    If(\E m \in DOMAIN w.Ls : ~LinkOk(w0.curs[m], w.curs[m], Targets(procs, m)), "current is gone, broken or points elsewhere")
    \cup If(\E m \in DOMAIN w.Ls : ~LinkedComplete(w0, procs, w, m), "current points at an incomplete build")

-----------------------------------------------------------------------------
(* What a command which reports success has achieved, whatever else was going on *)
ProcStep(w0, w, p) == TLCEval([cmd |-> p.cmd, pre |-> HereIn(w0, p.mach), post |-> HereIn(w, p.mach), code |-> p.code,
                       reads |-> p.reads, puts |-> p.puts, bad |-> p.bad, refused |-> p.refused, disturbed |-> p.disturbed, damaged |-> p.damaged])
Achieved(w0, procs, w, p) ==
    LET s == ProcStep(w0, w, p) L == w.Ls[p.mach]
        has(n) == Full(L, n) /\ (IF IsBuildName(n) THEN CompleteBuild(w0, procs, n, L[n]) ELSE CompletePatch(w0, procs, n, L[n]))
    IN CASE s.cmd.op = "install" ->
            If(~has(BuildFile(s.cmd.v)), "the installed build is not there")
            \* or what another install has installed afterwards, which then has not failed
            \cup If(w.curs[p.mach].k # "ok" \/ w.curs[p.mach].n \notin {BuildFile(s.cmd.v)} \cup Targets(SelectSeq(procs, LAMBDA q : q.code <= 0), p.mach),
                    "current does not point at an installed build")
       [] s.cmd.op = "patch" -> If(~has(PatchFile(s.cmd.from, s.cmd.to)), "the patch is not there")
       [] IsAdd(s) -> If(~has(BuildFile(s.cmd.v)), "the added build is not there")
                      \cup If(s.cmd.from # "" /\ ~has(PatchFile(s.cmd.from, s.cmd.v)), "the patch of the added build is not there")
                      \cup If(s.cmd.upload /\ ~(\A n \in {BuildFile(s.cmd.v)} \cup BuildNames(w0.Ls[p.mach]) : Full(w.R, n)), "a build was not uploaded")
       [] s.cmd.op = "sync" -> If(~(\A n \in BuildNames(w0.Ls[p.mach]) \cup {Pf(x) : x \in {y \in KnownPatches(s.pre) : Full(s.pre.L, Pf(y))}} : Full(w.R, n)), "a file was not uploaded")
       [] OTHER -> {}

(* the same builds, patches and current *)
SameOutcome(v, w) == /\ SameStores(v.R, w.R) /\ v.O = w.O
                     /\ \A m \in DOMAIN v.Ls : SameStores(v.Ls[m], w.Ls[m])
                     /\ \A m \in DOMAIN v.Ls : v.curs[m].k = w.curs[m].k /\ v.curs[m].n = w.curs[m].n /\ v.curs[m].c = w.curs[m].c
=============================================================================
