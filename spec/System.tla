------------------------------- MODULE System -------------------------------
(* The whole tool as a machine: several machines with a local store each and one remote, on which users
   run commands one after another while the environment publishes, damages, evicts and litters.
   Outcomes(cmd, w) is constructive: what the design does.  TLC checks that whatever it does satisfies every
   property of Commands (so the properties are satisfiable, mutually consistent, and follow from the design),
   that contents are never mixed up along any history, and it generates the histories which are
   replayed on the real program.                                                                          *)
EXTENDS Commands, TLC, Json

CONSTANTS Vs,          \* versions
          Machines,
          PSizes,      \* sizes of published patches
          BSize,       \* size of every build
          Damage,      \* kinds of damage of patches: subset of {"ok", "broken"}
          EnvOps,      \* which environment actions are explored
          CmdOps,      \* which commands are explored
          MaxSteps,
          Props,       \* properties which every step is checked for
          Published,   \* versions whose builds are in the remote from the start
          Report       \* print every history of MaxSteps steps

VARIABLES Ls, curs, R, bad, hist
vars == <<Ls, curs, R, bad, hist>>

Content(v) == "c:" \o v
BuildOf(v, h) == [t |-> "f", s |-> BSize, h |-> h, c |-> Content(v), m |-> <<>>, v |-> h]
PatchOf(f, t, z, d) ==
    LET h == "p:" \o f \o ">" \o t \o ":" \o ToString(z) \o d IN
    [t |-> "f", s |-> z, h |-> h, c |-> IF d = "ok" THEN "p" ELSE "-",
     m |-> IF d = "ok" THEN <<<<Content(f), Content(t)>>>> ELSE <<>>, v |-> h]
Stray(k) == [t |-> k, s |-> IF k = "f" THEN 0 ELSE 1, h |-> "stray", c |-> "-", m |-> <<>>, v |-> "stray"]
Put(S, n, e) == TLCEval([x \in DOMAIN S \cup {n} |-> IF x = n THEN e ELSE S[x]])
Drop(S, n) == TLCEval([x \in DOMAIN S \ {n} |-> S[x]])
NoCur == [k |-> "none", n |-> "", c |-> "-", in |-> FALSE]

World(m) == [L |-> Ls[m], R |-> R, O |-> NoFun, cur |-> curs[m]]
NoSrc == [k |-> "none", h |-> "", s |-> 0, c |-> "-", good |-> FALSE, kept |-> TRUE]
Cmd(op) == [op |-> op, v |-> "", from |-> "", to |-> "", upload |-> FALSE, prefix |-> "", tags |-> <<>>, src |-> NoSrc]
Step(c, pre, post, code, rd, pu) ==
    [cmd |-> c, pre |-> pre, post |-> post, code |-> code, reads |-> rd, puts |-> pu, bad |-> <<>>, refused |-> <<>>, disturbed |-> FALSE, damaged |-> <<>>]

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

-----------------------------------------------------------------------------
(* What the commands do.  Every outcome is a step.                            *)
Fail(c, w) == Step(c, w, w, 1, <<>>, <<>>)
Linked(L, v) == [k |-> "ok", n |-> BuildFile(v), c |-> L[BuildFile(v)].c, in |-> TRUE]
FetchFile(w, n) == IF Full(w.L, n) THEN w ELSE [w EXCEPT !.L = Put(w.L, n, w.R[n])]

RECURSIVE ApplyAll(_, _, _, _)      \* [w, rd, ok] after applying the patches q in order
ApplyAll(s0, w, q, rd) ==
    IF q = <<>> THEN [w |-> w, rd |-> rd]
    ELSE LET p == Head(q) n == Pf(p)
             w1 == FetchFile(w, n)
             r1 == IF Full(w.L, n) THEN rd ELSE rd \cup {n}
             e == w1.L[n]
         IN IF Exact(e, w1.L[BuildFile(p[1])].c, BuildEntry(s0.pre, p[2]).c)
            THEN ApplyAll(s0, [w1 EXCEPT !.L = Put(w1.L, BuildFile(p[2]), BuildOf(p[2], "patched:" \o p[2]))], Tail(q), r1)
            ELSE [w |-> w1, rd |-> r1]

Install(w, V) ==
    LET c == [Cmd("install") EXCEPT !.v = V]
        s0 == Step(c, w, w, 0, <<>>, <<>>)
        finish(x, rd) == LET y == FetchFile(x, BuildFile(V)) IN
            Step(c, w, [y EXCEPT !.cur = Linked(y.L, V)], 0,
                 SetToSeq(rd \cup IF Full(x.L, BuildFile(V)) THEN {} ELSE {BuildFile(V)}), <<>>)
    IN IF ~Known(s0, V) THEN {Fail(c, w)}
       ELSE IF AlreadyInstalled(s0) THEN {s0}
       ELSE IF CachedIn(w, V) \/ ~ByPatches(s0) THEN {finish(w, {})}
       ELSE {LET a == ApplyAll(s0, w, Needed(s0, r), {}) IN finish(a.w, a.rd) : r \in Routes(s0)}

MakePatch(w, known, f, t) ==    \* [w, rd, ok]; known: the patches in the index
    IF f = t \/ f \notin KnownBuilds(w) \/ t \notin KnownBuilds(w) THEN [w |-> w, rd |-> {}, ok |-> FALSE]
    ELSE LET n == PatchFile(f, t)
             w1 == FetchFile(FetchFile(w, BuildFile(f)), BuildFile(t))
             rd == {BuildFile(x) : x \in {y \in {f, t} : ~CachedIn(w, y)}}
         IN IF <<f, t>> \in known
            THEN [w |-> FetchFile(w1, n), rd |-> rd \cup IF Full(w.L, n) THEN {} ELSE {n}, ok |-> TRUE]
            ELSE [w |-> [w1 EXCEPT !.L = Put(w1.L, n, PatchOf(f, t, Min(PSizes), "ok"))], rd |-> rd, ok |-> TRUE]

CreatePatch(w, f, t) ==
    LET c == [Cmd("patch") EXCEPT !.from = f, !.to = t]
        a == MakePatch(w, KnownPatches(w), f, t)
    IN {Step(c, w, a.w, IF a.ok THEN 0 ELSE 1, SetToSeq(a.rd), <<>>)}

PushNames(w) == {n \in BuildNames(w.L) \cup {Pf(p) : p \in {q \in KnownPatches(w) : Full(w.L, Pf(q))}} : ~Full(w.R, n)}
Push(w) == [w EXCEPT !.R = [n \in DOMAIN w.R \cup PushNames(w) |-> IF n \in PushNames(w) THEN w.L[n] ELSE w.R[n]]]
Sync(w) == {Step(Cmd("sync"), w, Push(w), 0, <<>>, SetToSeq(PushNames(w)))}

Add(w, v, f, up, k) ==
    LET src == [k |-> k, h |-> IF k = "file" THEN "added:" \o v ELSE "", s |-> IF k = "file" THEN BSize ELSE 0,
                c |-> IF k = "file" THEN Content(v) ELSE "-", good |-> k = "file", kept |-> TRUE]
        c == [Cmd("add") EXCEPT !.v = v, !.from = f, !.upload = up, !.src = src]
        w1 == [w EXCEPT !.L = Put(w.L, BuildFile(v), BuildOf(v, "added:" \o v)),
                        !.cur = IF w.cur.n = BuildFile(v) THEN Linked(Put(w.L, BuildFile(v), BuildOf(v, "x")), v) ELSE w.cur]
        a == IF f = "" THEN [w |-> w1, rd |-> {}, ok |-> TRUE] ELSE MakePatch(w1, KnownPatches(w), f, v)
        \* patches which only the new build connects are not in the index yet
        pushed == LET known == KnownPatches(w) \cup (IF f = "" THEN {} ELSE {<<f, v>>})
                      orphan == Pf(<<f, v>>)
                          names == {n \in BuildNames(a.w.L) \cup {Pf(p) : p \in {q \in known : Full(a.w.L, Pf(q))}} :
                                        ~Full(a.w.R, n) \/ (f # "" /\ n = orphan /\ <<f, v>> \notin KnownPatches(w))}
                  IN names
        done == [a.w EXCEPT !.R = [n \in DOMAIN a.w.R \cup pushed |-> IF n \in pushed THEN a.w.L[n] ELSE a.w.R[n]]]
    IN IF k # "file" THEN {Fail(c, w)}
       ELSE IF ~a.ok THEN {Step(c, w, a.w, 1, SetToSeq(a.rd), <<>>)}
       ELSE IF up THEN {Step(c, w, done, 0, SetToSeq(a.rd), SetToSeq(pushed))}
       ELSE {Step(c, w, a.w, 0, SetToSeq(a.rd), <<>>)}

-----------------------------------------------------------------------------
Init == /\ Ls = [m \in Machines |-> NoFun] /\ curs = [m \in Machines |-> NoCur] 
        /\ R = [n \in {BuildFile(v) : v \in Published} |-> BuildOf(BuildVersion(n), "published:" \o BuildVersion(n))]
        /\ bad = {} /\ hist = <<>>

(* when histories are generated, parameters are drawn at random instead of enumerated *)
Drawn(S) == IF Report /\ S # {} THEN {RandomElement(S)} ELSE S
Note(h) == hist' = Append(hist, h)
Do(m, S, h) == \E s \in TLCEval(S) :
    /\ Ls' = [Ls EXCEPT ![m] = s.post.L] /\ curs' = [curs EXCEPT ![m] = s.post.cur] /\ R' = s.post.R
    /\ bad' = UNION {{<<P, x>> : x \in Failing(P, s)} : P \in Props} /\ Note(h)
Rec(op, m, v, f, t, x) == [op |-> op, mach |-> m, v |-> v, from |-> f, to |-> t, x |-> x]

DoInstall == "install" \in CmdOps /\ \E m \in Drawn(Machines), v \in Drawn(Vs) : Do(m, Install(World(m), v), Rec("install", m, v, "", "", ""))
DoPatch == "patch" \in CmdOps /\ \E m \in Drawn(Machines), f \in Drawn(Vs), t \in Drawn(Vs) : Do(m, CreatePatch(World(m), f, t), Rec("patch", m, "", f, t, ""))
DoSync == "sync" \in CmdOps /\ \E m \in Drawn(Machines) : Do(m, Sync(World(m)), Rec("sync", m, "", "", "", ""))
(* versions are added once, or again with the same content *)
DoAdd == "add" \in CmdOps /\ \E m \in Drawn(Machines), v \in Drawn(Vs), f \in Drawn(Vs \cup {""}), up \in Drawn(BOOLEAN) :
            Do(m, Add(World(m), v, f, up, "file"), Rec(IF up THEN "addup" ELSE "add", m, v, f, "", ""))
DoBadAdd == "badadd" \in CmdOps /\ \E m \in Drawn(Machines), v \in Drawn(Vs), k \in {"missing", "empty"} :
            Do(m, Add(World(m), v, "", TRUE, k), Rec("addup", m, v, "", "", k))

Env(h) == bad' = {} /\ Note(h)
EnvPublish == "publish" \in EnvOps /\ \E v \in Drawn(Vs) : BuildFile(v) \notin DOMAIN R
    /\ R' = Put(R, BuildFile(v), BuildOf(v, "published:" \o v)) /\ UNCHANGED <<Ls, curs>> /\ Env(Rec("publish", "", v, "", "", ""))
EnvPatch == "ppatch" \in EnvOps /\ \E f \in Drawn(Vs), t \in Drawn(Vs), z \in Drawn(PSizes), d \in Drawn(Damage) :
    f # t /\ PatchFile(f, t) \notin DOMAIN R
    /\ R' = Put(R, PatchFile(f, t), PatchOf(f, t, z, d)) /\ UNCHANGED <<Ls, curs>> /\ Env(Rec("ppatch", "", d, f, t, ToString(z)))
EnvLocalPatch == "lpatch" \in EnvOps /\ \E m \in Drawn(Machines), f \in Drawn(Vs), t \in Drawn(Vs), z \in Drawn(PSizes), d \in Drawn(Damage) :
    f # t /\ PatchFile(f, t) \notin DOMAIN Ls[m]
    /\ Ls' = [Ls EXCEPT ![m] = Put(Ls[m], PatchFile(f, t), PatchOf(f, t, z, d))] /\ UNCHANGED <<R, curs>>
    /\ Env(Rec("lpatch", m, d, f, t, ToString(z)))
EnvEvict == "evict" \in EnvOps /\ \E m \in Drawn(Machines), v \in Drawn(Vs) : BuildFile(v) \in DOMAIN Ls[m]
    /\ Ls' = [Ls EXCEPT ![m] = Drop(Ls[m], BuildFile(v))]
    /\ curs' = [curs EXCEPT ![m] = IF @.n = BuildFile(v) THEN [k |-> "dangling", n |-> @.n, c |-> "-", in |-> FALSE] ELSE @]
    /\ UNCHANGED R /\ Env(Rec("evict", m, v, "", "", ""))
EnvForget == "forget" \in EnvOps /\ \E m \in Drawn(Machines) : \E n \in PatchNames(Ls[m]) :
    /\ Ls' = [Ls EXCEPT ![m] = Drop(Ls[m], n)] /\ UNCHANGED <<R, curs>> /\ Env(Rec("forget", m, n, "", "", ""))
(* litter: empty files of builds and patches, links, temporary files *)
StrayNames == {BuildFile(v) : v \in Vs} \cup {PatchFile(f, t) : f, t \in Vs} \cup {"._artefacta-temp-1.tar.zst.part", "a---b---c.tar.zst"}
EnvStray == "stray" \in EnvOps /\ \E n \in Drawn(StrayNames), k \in Drawn({"f", "l"}), m \in Drawn(Machines \cup {"remote"}) :
    IF m = "remote" THEN n \notin DOMAIN R /\ (n \in {"._artefacta-temp-1.tar.zst.part", "a---b---c.tar.zst"} \/ k = "f") /\ R' = Put(R, n, Stray(k)) /\ UNCHANGED <<Ls, curs>> /\ Env(Rec("stray", m, n, "", "", k))
    ELSE n \notin DOMAIN Ls[m] /\ (k = "f" => curs[m].n # n) /\ Ls' = [Ls EXCEPT ![m] = Put(Ls[m], n, Stray(k))] /\ UNCHANGED <<R, curs>>
         /\ Env(Rec("stray", m, n, "", "", k))

(* prints a generated history once *)
Finish == Report /\ Len(hist) = MaxSteps /\ bad = {} /\ PrintT("HIST " \o ToJson(hist)) /\ bad' = {<<"", "printed">>} /\ UNCHANGED <<Ls, curs, R, hist>>
Next == \/ Finish
        \/ /\ Len(hist) < MaxSteps
           /\ \/ DoInstall \/ DoPatch \/ DoSync \/ DoAdd \/ DoBadAdd
              \/ EnvPublish \/ EnvPatch \/ EnvLocalPatch \/ EnvEvict \/ EnvForget \/ EnvStray

-----------------------------------------------------------------------------
AllHold == bad = {}
(* contents are never mixed up *)
RightContent(S) == \A n \in BuildNames(S) : S[n].c = Content(BuildVersion(n))
RightPatches(S) == \A n \in PatchNames(S) : S[n].c = "-" \/ S[n].m = <<<<Content(PairOf(n)[1]), Content(PairOf(n)[2])>>>>
Sound == /\ RightContent(R) /\ \A m \in Machines : RightContent(Ls[m])
         /\ RightPatches(R) /\ \A m \in Machines : RightPatches(Ls[m])
         /\ \A m \in Machines : curs[m].k = "ok" => Full(Ls[m], curs[m].n)
Explored == <<Ls, curs, R, Len(hist), bad>>
=============================================================================
