------------------------------ MODULE Commands ------------------------------
(* The meaning of every command, as relation between the world before and after it.

   A step is a record
     cmd    [op, v, from, to, upload, prefix, tags, src]; op is one of install add addpkg patch auto sync debug;
            "" stands for an absent argument; src = [k, h, s]: what add is given (k: "file" "empty" "missing" "dir")
     pre, post   worlds
     code   exit status            reads  names of the remote whose content was read
     puts   names uploaded (S3), or <<"?">> when that is not observed
     bad    names of the remote which could not be read during the step (injected)
     damaged   what was sent in place of objects [n: name, h: identity of the bytes]
     disturbed   some operation was made to fail
   Failing_Cxx(s) is the set of ways in which step s breaks property Cxx (empty when it holds).          *)
EXTENDS Store, Planner, Tags

If(cond, label) == IF cond THEN {label} ELSE {}
Ok(s) == s.code = 0
Reads(s) == Range(s.reads)
Bad(s) == Range(s.bad)

IsAdd(s) == s.cmd.op \in {"add", "addpkg"}
Uploads(s) == s.cmd.op = "sync" \/ (IsAdd(s) /\ s.cmd.upload)
Current(s) == s.cmd.prefix \o s.cmd.v            \* auto-patch: name of the current build
SameFile(S, T, n) == n \in DOMAIN S /\ n \in DOMAIN T /\ S[n] = T[n]
New(s) == {n \in Kept(s.post.L) : ~(n \in DOMAIN s.pre.L /\ SameBytes(s.pre.L[n], s.post.L[n]))}
Changed(S, T) == {n \in DOMAIN S \cup DOMAIN T : ~SameFile(S, T, n)}

Sizes(w) == TLCEval([p \in KnownPatches(w) |-> PatchSize(w, p)])

-----------------------------------------------------------------------------
(* Install: which route has to be taken                                       *)
Target(s) == s.cmd.v
Known(s, v) == v \in KnownBuilds(s.pre)
CachedIn(w, v) == v \in Builds(w.L)
Upgrading(s) == Installed(s.pre) /\ InstalledVersion(s.pre) # Target(s)
AlreadyInstalled(s) == Installed(s.pre) /\ InstalledVersion(s.pre) = Target(s)
CostsOf(B, P, z, t) == TLCEval(CostTo(B, P, z, t))
Costs(s) == CostsOf(TLCEval(KnownBuilds(s.pre)), TLCEval(KnownPatches(s.pre)), Sizes(s.pre), Target(s))
Cost(s) == Costs(s)[InstalledVersion(s.pre)]
ByPatches(s) == Upgrading(s) /\ Known(s, Target(s)) /\ InstalledVersion(s.pre) \in KnownBuilds(s.pre)
                /\ Cost(s) < BuildSize(s.pre, Target(s))
Routes(s) == LET P == TLCEval(KnownPatches(s.pre)) z == Sizes(s.pre) d == Costs(s)
             IN TLCEval(Chains(P, z, d, InstalledVersion(s.pre), Target(s)))
(* what is left to do of a route: everything after the last build which is cached *)
Needed(s, r) ==
    LET C == {i \in 1..Len(r) : CachedIn(s.pre, r[i][2])} IN
    IF C = {} THEN r ELSE Sub(r, Max(C) + 1, Len(r))
Pf(p) == PatchFile(p[1], p[2])
UsableHere(s, p) == /\ Usable(s.pre, p)
                    /\ Pf(p) \notin Bad(s)
GoodRoute(s, r) == \A i \in 1..Len(Needed(s, r)) : UsableHere(s, Needed(s, r)[i])
FetchNames(s, r) == {Pf(p) : p \in {q \in Range(Needed(s, r)) : ~Full(s.pre.L, Pf(q))}}
BuiltNames(s, r) == {BuildFile(p[2]) : p \in Range(Needed(s, r))}

Obtainable(s, v) == CachedIn(s.pre, v) \/ (v \in Builds(s.pre.R) /\ BuildFile(v) \notin Bad(s))
SomeGoodRoute(s) == ByPatches(s) /\ \A r \in Routes(s) : GoodRoute(s, r)

(* the command has everything it needs *)
CanInstall(s) == /\ Known(s, Target(s))
                 /\ Obtainable(s, Target(s)) \/ SomeGoodRoute(s)

Failing_C01(s) == IF s.cmd.op # "install" THEN {} ELSE
    IF Ok(s)
    THEN If(~Known(s, Target(s)), "an unknown version was installed")
         \cup If(s.post.cur.k # "ok" \/ ~s.post.cur.in \/ s.post.cur.n # BuildFile(Target(s)), "current does not point at the requested build")
         \cup If(~Full(s.post.L, BuildFile(Target(s))), "the requested build is not in the local store")
         \cup (IF Known(s, Target(s)) /\ Full(s.post.L, BuildFile(Target(s)))
               THEN If(~SameContent(s.post.L[BuildFile(Target(s))], BuildEntry(s.pre, Target(s))), "the installed build has the wrong content")
               ELSE {})
    ELSE If(CanInstall(s) /\ ~s.disturbed, "an available version was not installed")

Failing_C02(s) ==
    IF s.cmd.op = "install" /\ Ok(s)
    THEN If(s.post.cur.k # "ok" \/ s.post.cur.n # BuildFile(Target(s)), "current is missing or broken after a successful install")
    ELSE If(s.post.cur.n # s.pre.cur.n \/ (s.post.cur.k # s.pre.cur.k /\ ~(s.pre.cur.k = "dangling" /\ s.post.cur.k = "ok")),
            "current was changed by a command which failed or does not install")
         \cup (IF s.cmd.op = "install" THEN If(CanInstall(s) /\ ~s.disturbed, "an available version was not installed") ELSE {})

(* Only for undisturbed steps, or steps where only reading some remote files failed *)
Failing_C05(s) == IF s.cmd.op # "install" \/ ~Known(s, Target(s)) THEN {} ELSE
    LET V == Target(s)
        vf == BuildFile(V)
        ch == {n \in New(s) : TRUE}
        rd == Reads(s)
    IN IF AlreadyInstalled(s) \/ CachedIn(s.pre, V)
       THEN If(rd # {}, "remote files were read although the build is cached")
            \cup If(ch # {} \/ (vf \in DOMAIN s.post.L /\ s.post.L[vf] # s.pre.L[vf]), "local files were written although the build is cached")
       ELSE IF ~ByPatches(s)
       THEN If(~(rd \subseteq {vf}), "the full build is cheapest, but other files were read")
            \cup If(~(ch \subseteq {vf}), "the full build is cheapest, but other files were written")
            \cup If(Ok(s) /\ vf \notin rd, "the full build is cheapest, but was not read")
       ELSE LET fits(r) ==
                    IF GoodRoute(s, r)
                    THEN rd \subseteq FetchNames(s, r) /\ ch \subseteq FetchNames(s, r) \cup BuiltNames(s, r)
                         /\ (Ok(s) => rd = FetchNames(s, r))
                    ELSE rd \subseteq FetchNames(s, r) \cup {vf} /\ ch \subseteq FetchNames(s, r) \cup BuiltNames(s, r)
            IN If(~\E r \in Routes(s) : fits(r), "not the cheapest route with what the cache lacks")

NewBuilds(s) == {n \in BuildNames(s.post.L) : n \in New(s)}
Failing_C06(s) ==
    (IF s.cmd.op = "install" THEN
        If(~Ok(s) /\ CanInstall(s) /\ (~s.disturbed \/ Bad(s) # {}), "the upgrade failed although the build can be had")
        \cup If(Ok(s) /\ Failing_C01(s) # {}, "the upgrade reported success but the installed build is not right")
     ELSE {})
    \cup If(\E n \in NewBuilds(s) : ~(IsAdd(s) /\ n = BuildFile(s.cmd.v))
                /\ ~(n \in DOMAIN s.pre.R /\ SameContent(s.post.L[n], s.pre.R[n])),
            "a build with wrong content was left in the local store")

-----------------------------------------------------------------------------
(* Creating patches                                                           *)
Healthy(w, v) == v \in KnownBuilds(w) /\ BuildEntry(w, v).c \notin {"-", "c:empty"}
AutoBuilds(s) == LET sl == TLCEval({Slice(s.cmd.prefix \o t) : t \in UNION Selected(s.cmd.v, Range(s.cmd.tags))}) IN {b \in KnownBuilds(s.pre) : Slice(b) \in sl}
Creates(s) ==             \* ordered pairs which the command asks patches for, in any world
    CASE s.cmd.op = "patch" -> {<<s.cmd.from, s.cmd.to>>}
      [] IsAdd(s) /\ s.cmd.from # "" -> {<<s.cmd.from, s.cmd.v>>}
      [] s.cmd.op = "auto" -> {<<f, Current(s)>> : f \in AutoBuilds(s)}
      [] OTHER -> {}
IsSelfPatchName(n) == HasSuffix(n, ".patch.zst") /\ ~IsPatchName(n)
    /\ LET b == Chop(n, 10) IN \E i \in Positions(b, "-") : LET v == Sub(b, 1, i - 1) IN ValidVersion(v) /\ PatchFile(v, v) = n
KnownFiles(s) == TLCEval({Pf(p) : p \in KnownPatches(s.pre)})
NewPatches(s) == {n \in PatchNames(s.post.L) : n \in New(s)}
CopyOfRemote(s, n) == Full(s.pre.R, n) /\ SameBytes(s.post.L[n], s.pre.R[n])
Failing_C07(s) ==
    LET P == Creates(s)
        made == {p \in P : ValidVersion(p[1]) /\ ValidVersion(p[2]) /\ p[1] # p[2]}
    IN \* every patch which appears is the copy of a published one or exact for the pair it was asked for
       If(\E n \in NewPatches(s) : ~(CopyOfRemote(s, n) /\ n \in KnownFiles(s))
             /\ ~\E p \in made : /\ n = Pf(p)
                                 /\ p[1] \in KnownBuilds(s.post) /\ p[2] \in KnownBuilds(s.post)
                                 /\ Exact(s.post.L[n], BuildEntry(s.post, p[1]).c, BuildEntry(s.post, p[2]).c),
          "a patch which does not make the second build out of the first, or which was not asked for")
       \* known patches are reused
       \cup If(\E p \in made \cap KnownPatches(s.pre) : LET n == Pf(p) IN
                  IF Full(s.pre.L, n) THEN ~SameFile(s.pre.L, s.post.L, n)
                  ELSE n \in DOMAIN s.post.L /\ n \notin Bad(s) /\ ~SameBytes(s.post.L[n], s.pre.R[n]),
               "a known patch was replaced")
       \cup If(Ok(s) /\ s.cmd.op # "auto" /\ \E p \in P : p[1] = p[2], "a patch from a version to itself was accepted")
       \cup If(\E n \in DOMAIN s.post.L : IsSelfPatchName(n) /\ n \notin DOMAIN s.pre.L, "a patch from a version to itself was stored")
       \cup If(Ok(s) /\ s.cmd.op # "auto" /\ \E p \in made : ~Full(s.post.L, Pf(p)), "success was reported but there is no patch of that name")
       \cup If(s.cmd.op = "patch" /\ ~Ok(s) /\ ~s.disturbed
                  /\ \A p \in P : p[1] # p[2] /\ (p \in KnownPatches(s.pre) \/ (Healthy(s.pre, p[1]) /\ Healthy(s.pre, p[2])))
                                  /\ {p[1], p[2]} \subseteq KnownBuilds(s.pre),
               "a patch between two available builds was not created")
       \cup If(s.cmd.op = "patch" /\ Ok(s) /\ \E p \in P : ~({p[1], p[2]} \subseteq KnownBuilds(s.pre)), "a patch from or to an unknown build was reported as created")

-----------------------------------------------------------------------------
(* Uploading                                                                  *)
AddedPatches(s) == {Pf(p) : p \in {q \in Creates(s) : q[1] # q[2]}}
Must(s) == LET K == TLCEval(KnownFiles(s)) A == TLCEval(AddedPatches(s)) IN
    TLCEval(BuildNames(s.post.L) \cup {n \in PatchNames(s.post.L) : n \in K \/ (IsAdd(s) /\ n \in A)})
May(s) == Kept(s.post.L)                           \* patches which only the added build connects
(* a published patch between builds which were not both known is not in the index: it is made anew *)
Already(s) == LET K == TLCEval(KnownFiles(s)) A == TLCEval(AddedPatches(s)) IN TLCEval(Kept(s.pre.R) \ (A \ K))
Missing(s) == TLCEval(Must(s) \ Already(s))
RemoteUntouched(s) == s.post.R = s.pre.R /\ s.post.O = s.pre.O
Failing_C08(s) ==
    IF ~Uploads(s) \/ ~Ok(s) THEN {} ELSE
    LET must == TLCEval(Must(s))
        already == TLCEval(Already(s))
        missing == TLCEval(must \ already)
        extra == TLCEval(May(s) \ already)
    IN If(~(must \subseteq Kept(s.post.R)), "something that should be published is missing from the remote")
       \cup If(\E n \in missing : n \in DOMAIN s.post.R /\ ~SameBytes(s.post.R[n], s.post.L[n]), "an upload differs from the local file")
       \cup If(\E n \in already : ~SameFile(s.pre.R, s.post.R, n), "a published file was touched")
       \cup If(\E n \in Changed(s.pre.R, s.post.R) : n \notin missing /\ n \notin extra, "something else changed in the remote")
       \cup If(s.post.O # s.pre.O, "something changed outside of the remote's path")
       \cup If(s.puts # <<"?">> /\ ~(Range(s.puts) \subseteq missing \cup extra), "a file that was not missing was uploaded")

(* s.refused: names whose upload was made to fail at least once *)
Failing_C09(s) ==
    IF ~Uploads(s) THEN {} ELSE
       If(Ok(s) /\ Failing_C08(s) # {}, "success was reported but the remote is not as it should be")
       \cup If(Ok(s) /\ \E n \in Range(s.refused) : n \in Missing(s), "a failed transfer was not reported")
       \cup If(\E n \in Changed(s.pre.R, s.post.R) : HasSuffix(n, ".zst") /\ (n \notin DOMAIN s.post.R \/
                   ~(n \in Kept(s.post.L) /\ n \notin Already(s) /\ SameBytes(s.post.R[n], s.post.L[n]))),
               "an object in the remote is incomplete or does not belong there")
       \cup If(s.post.O # s.pre.O, "something changed outside of the remote's path")
       \cup If(s.cmd.op = "sync" /\ ~Ok(s) /\ ~s.disturbed, "an undisturbed sync failed")
       \cup If(s.cmd.op = "sync" /\ Ok(s) /\ ~s.disturbed /\ s.puts # <<"?">> /\ Range(s.puts) # Missing(s), "the sync did not transfer exactly what was missing")

-----------------------------------------------------------------------------
(* Downloads.  s.bad: objects which were sent damaged, cut short, with a wrong or no checksum, or not at all, every time.   *)
Unspoilt(s) == Reads(s) \ Bad(s)
GoodSource(s, v) == LET n == BuildFile(v) IN Full(s.pre.L, n) \/ (Full(s.pre.R, n) /\ n \notin Bad(s)) \/ (IsAdd(s) /\ v = s.cmd.v)
(* made by patches all of which arrived whole *)
ByPatchesOnly(s, n) == s.cmd.op = "install" /\ ByPatches(s)
    /\ \E r \in Routes(s) : LET q == Needed(s, r) IN
          \E i \in 1..Len(q) : q[i][2] = BuildVersion(n) /\ \A j \in 1..i : UsableHere(s, q[j])
Downloaded(s, n) == n \in Unspoilt(s) /\ Full(s.pre.R, n) /\ SameBytes(s.post.L[n], s.pre.R[n])
MadeOf(s, p) == GoodSource(s, p[1]) /\ GoodSource(s, p[2])
Failing_C14(s) ==
    If(\E x \in Range(s.damaged) : x.n \in New(s) /\ s.post.L[x.n].h = x.h, "a damaged download was stored")
    \cup If(\E n \in NewBuilds(s) : ~(IsAdd(s) /\ n = BuildFile(s.cmd.v)) /\ ~Downloaded(s, n) /\ ~ByPatchesOnly(s, n),
           "a build appeared which is neither a whole download nor made of whole downloads")
    \cup If(\E n \in NewPatches(s) : ~Downloaded(s, n) /\ ~\E p \in Creates(s) : Pf(p) = n /\ MadeOf(s, p),
           "a patch appeared which is neither a whole download nor made of whole downloads")
    \cup If(\E n \in Unspoilt(s) \cap New(s) : Full(s.pre.R, n) /\ ~SameBytes(s.post.L[n], s.pre.R[n]), "an object that arrived whole was not stored byte for byte")
    \cup If(Ok(s) /\ \E n \in Unspoilt(s) \cap Kept(s.pre.R) : ~Full(s.post.L, n), "an object that arrived whole was not stored")
    \cup (IF s.cmd.op = "install" THEN Failing_C01(s) \cup If(Ok(s) /\ BuildFile(Target(s)) \in Bad(s) /\ ~CachedIn(s.pre, Target(s)) /\ ~ByPatchesOnly(s, BuildFile(Target(s))), "a build was installed which did not arrive whole") ELSE {})
    \cup (IF s.cmd.op = "patch" THEN If(Ok(s) /\ \A p \in Creates(s) : (p \notin KnownPatches(s.pre) \/ (Pf(p) \in Bad(s) /\ ~Full(s.pre.L, Pf(p)))) /\ ~MadeOf(s, p), "success although nothing arrived whole that the patch could be made of") ELSE {})
    \cup (IF s.disturbed THEN {} ELSE IF s.cmd.op = "patch" THEN Failing_C07(s) ELSE {})

-----------------------------------------------------------------------------
(* What nobody may do                                                         *)
Replaces(s) == IF IsAdd(s) THEN {BuildFile(s.cmd.v)} ELSE {}
Failing_C17(s) ==
    If(\E n \in BuildNames(s.pre.L) \ Replaces(s) : n \notin DOMAIN s.post.L \/ ~Full(s.post.L, n) \/ ~SameContent(s.post.L[n], s.pre.L[n]),
       "a local build was removed or changed")
    \cup If(\E n \in {Pf(p) : p \in KnownPatches(s.pre)} : Full(s.pre.L, n) /\ (n \notin DOMAIN s.post.L \/ ~SameBytes(s.post.L[n], s.pre.L[n])),
       "a local patch was removed or changed")
    \cup If(\E n \in PatchNames(s.pre.L) : n \notin DOMAIN s.post.L \/ ~Full(s.post.L, n), "a local patch was removed")
    \cup If(\E n \in PatchNames(s.pre.L) : n \in DOMAIN s.post.L /\ ~SameBytes(s.post.L[n], s.pre.L[n]) /\ n \notin AddedPatches(s), "a local patch was changed")
    \cup If(\E n \in Replaces(s) : n \in BuildNames(s.pre.L) /\
               (~Full(s.post.L, n) \/ ~(SameContent(s.post.L[n], s.pre.L[n]) \/ (s.cmd.src.k = "file" /\ s.post.L[n].h = s.cmd.src.h))),
       "the earlier build of the added version was damaged")
    \cup If(\E n \in Already(s) : n \notin DOMAIN s.post.R \/ ~SameBytes(s.post.R[n], s.pre.R[n]), "a published file was removed or changed")
    \cup If(~Uploads(s) /\ ~RemoteUntouched(s), "the remote was changed by a command which does not upload")

(* with strays in both stores the commands do the same *)
Unstray(w) == [w EXCEPT !.L = [n \in Kept(w.L) |-> w.L[n]], !.R = [n \in Kept(w.R) |-> w.R[n]]]
Failing_C18(s) ==
    (IF s.cmd.op = "install" THEN
        If(Ok(s) # (Target(s) \in KnownBuilds(s.pre)) /\ ~s.disturbed, "the set of known builds is not the union of the stores")
        \cup (IF ~s.disturbed THEN Failing_C05(s) ELSE {})
     ELSE {})
    \cup (IF s.cmd.op = "patch" /\ ~s.disturbed THEN
        If(Ok(s) /\ ~({s.cmd.from, s.cmd.to} \subseteq KnownBuilds(s.pre)), "an unknown build was accepted")
        \cup If(~Ok(s) /\ s.cmd.from # s.cmd.to /\ Healthy(s.pre, s.cmd.from) /\ Healthy(s.pre, s.cmd.to), "a known build was not accepted")
        \cup If(Ok(s) /\ <<s.cmd.from, s.cmd.to>> \notin KnownPatches(s.pre) /\ PatchFile(s.cmd.from, s.cmd.to) \in Reads(s), "an unknown patch was used")
        ELSE {})
    \cup (IF Uploads(s) THEN Failing_C08(s) \cup If(s.cmd.op = "sync" /\ ~Ok(s) /\ ~s.disturbed, "a sync failed") ELSE {})
    \cup If(s.cmd.op = "debug" /\ ~Ok(s) /\ ~s.disturbed, "the index could not be built")

(* add: what it does when it can, and when its input is no good *)
AddedName(s) == BuildFile(s.cmd.v)
CanAdd(s) == s.cmd.src.k = "file" /\ ValidVersion(s.cmd.v)
             /\ (s.cmd.from # "" => s.cmd.from # s.cmd.v /\ ValidVersion(s.cmd.from) /\ Healthy(s.pre, s.cmd.from) /\ s.cmd.src.good)
BadInput(s) == s.cmd.src.k # "file" \/ ~ValidVersion(s.cmd.v) \/ (s.cmd.from # "" /\ ~ValidVersion(s.cmd.from))
Failing_C19(s) == IF ~IsAdd(s) THEN {} ELSE
    (IF Ok(s)
     THEN If(BadInput(s), "bad input was accepted")
          \cup If(~Full(s.post.L, AddedName(s)), "the added build is not in the local store")
          \cup If(Full(s.post.L, AddedName(s)) /\ s.cmd.op = "add" /\ (s.post.L[AddedName(s)].h # s.cmd.src.h \/ s.post.L[AddedName(s)].s # s.cmd.src.s),
                  "the stored build is not a copy of the given file")
          \cup If(s.cmd.from # "" /\ ~Full(s.post.L, PatchFile(s.cmd.from, s.cmd.v)), "the requested patch was not created")
          \cup (IF s.cmd.upload THEN Failing_C08(s) ELSE {})
     ELSE If(CanAdd(s) /\ ~s.disturbed, "a good build was not added")
          \cup If(BadInput(s) /\ (s.post.L # s.pre.L \/ s.post.R # s.pre.R \/ s.post.O # s.pre.O \/ s.post.cur # s.pre.cur), "a failed add changed a store"))
    \cup If(~s.cmd.src.kept, "the given file was changed or removed")
    \* only the added build, what its patch needs, and the patch
    \cup If(\E n \in New(s) : n # AddedName(s) /\ n \notin AddedPatches(s) /\ ~(s.cmd.from # "" /\ n = BuildFile(s.cmd.from) /\ CopyOfRemote(s, n)),
            "adding a build changed other files of the local store")

-----------------------------------------------------------------------------
(* Auto-patch                                                                 *)
Picks(s) == Selected(s.cmd.v, Range(s.cmd.tags))
(* For every selected release, the builds which carry its name (more than one when they differ only in separators or case).
   When several tags come last, which happens when numbers are written with different zeros, any of them may be picked:
   one set of builds for each.                                                                                           *)
BuildsFor(s, T) == LET sl == TLCEval({Slice(s.cmd.prefix \o t) : t \in T}) IN {{b \in KnownBuilds(s.pre) : Slice(b) = x} : x \in sl}
Jobs(s) == TLCEval({BuildsFor(s, T) : T \in Picks(s)})
Attainable(s, b) == <<b, Current(s)>> \in KnownPatches(s.pre) \/ (Healthy(s.pre, b) /\ Healthy(s.pre, Current(s)))
Readable(s, b) == BuildFile(b) \notin Bad(s)
CurrentThere(s) == Current(s) \in KnownBuilds(s.pre) /\ Readable(s, Current(s))
PatchThere(s, b) == Full(s.post.L, PatchFile(b, Current(s)))
Skipped(s, J) == \E P \in J : {} \notin P /\ (\A b \in UNION P : Attainable(s, b) /\ Readable(s, b)) /\ ~\E b \in UNION P : PatchThere(s, b)
Failing_C11(s) == IF s.cmd.op # "auto" \/ ~CurrentThere(s) THEN {} ELSE
    LET J == Jobs(s)
        allowed == {PatchFile(b, Current(s)) : b \in UNION (UNION J)}
        made == {n \in DOMAIN s.post.L : HasSuffix(n, ".patch.zst") /\ ~SameFile(s.pre.L, s.post.L, n)}
    IN If((~s.disturbed \/ Bad(s) # {}) /\ Skipped(s, J), "no patch from a predecessor release")
       \cup If(~(made \subseteq allowed), "a patch from a build which is no predecessor release")
Failing_C12(s) == IF s.cmd.op # "auto" THEN {} ELSE
    IF Current(s) \notin KnownBuilds(s.pre) THEN If(Ok(s), "success without the current build")
    ELSE LET J == Jobs(s) all == \A P \in J : \E b \in UNION P : PatchThere(s, b) IN
         If(CurrentThere(s) /\ (~s.disturbed \/ Bad(s) # {}) /\ Skipped(s, J), "a release was not attempted")
         \cup If(Ok(s) /\ ~all, "success was reported but a patch is missing")
         \cup If(~Ok(s) /\ ~s.disturbed /\ \A P \in J : {} \notin P /\ \A b \in UNION P : PatchThere(s, b), "failure was reported but all patches exist")

-----------------------------------------------------------------------------
(* A path in a bucket as a directory: t is the same command in a world whose remote is a directory, [pre, post, code]           *)
(* the same builds, patches and current in both stores; a patch may have been made in another way *)
SamePatch(a, b) == Range(a.m) = Range(b.m) \/ Range(a.m) \cap Range(b.m) # {}
SameStores(S, T) == Kept(S) = Kept(T) /\ \A n \in Kept(S) : S[n].c = T[n].c /\ SamePatch(S[n], T[n]) /\ (S[n].c = "-" => S[n].h = T[n].h)
SameWorld(v, w) == SameStores(v.L, w.L) /\ SameStores(v.R, w.R) /\ v.cur.k = w.cur.k /\ v.cur.n = w.cur.n /\ v.cur.c = w.cur.c
InPath(n) == ~\E i \in Positions(n, "/") : TRUE
Failing_C15(s) ==
    If(s.post.O # s.pre.O, "something changed outside of the remote's path")
    \cup If(\E n \in Reads(s) : ~InPath(n), "an object elsewhere in the bucket was read")
    \cup If(s.puts # <<"?">> /\ \E n \in Range(s.puts) : ~InPath(n), "an object elsewhere in the bucket was written")
Choice(s) ==        \* the command may choose between equals
    CASE s.cmd.op = "install" -> Known(s, Target(s)) /\ ByPatches(s) /\ Cardinality(Routes(s)) > 1
      [] s.cmd.op = "auto" -> \E P \in Jobs(s) : Cardinality(P) > 1 \/ Cardinality(UNION P) > 1
      [] OTHER -> FALSE
Comparable(s, t) == SameWorld(s.pre, t.pre) /\ ~Choice(s)
Twins(s, t) == IF ~Comparable(s, t) THEN {} ELSE
    If(Ok(s) # (t.code = 0), "the exit status differs from that with a directory")
    \cup If(~SameStores(s.post.L, t.post.L), "the local store differs from that with a directory")
    \cup If(~SameStores(s.post.R, t.post.R), "the remote differs from a directory")
    \cup If(s.post.cur.k # t.post.cur.k \/ s.post.cur.n # t.post.cur.n, "current differs from that with a directory")

-----------------------------------------------------------------------------
(* Version names                                                              *)
NamesOf(s) == CASE s.cmd.op = "install" -> {s.cmd.v}
                [] s.cmd.op = "patch" -> {s.cmd.from, s.cmd.to}
                [] s.cmd.op = "add" -> {s.cmd.v} \cup (IF s.cmd.from = "" THEN {} ELSE {s.cmd.from})
                [] s.cmd.op = "addpkg" -> {s.cmd.v} \cup (IF s.cmd.from = "" THEN {} ELSE {s.cmd.from})
                [] s.cmd.op = "auto" -> {Current(s), s.cmd.v}
                [] OTHER -> {}
Rejected(s) == \E v \in NamesOf(s) : ~ValidVersion(v)
Failing_C10(s) ==
    (IF Rejected(s)
     THEN If(Ok(s), "an invalid version name was accepted")
          \cup If(s.post # s.pre, "something was written although a version name is invalid")
     ELSE If(s.cmd.op = "add" /\ Ok(s) /\ ~(Full(s.post.L, BuildFile(s.cmd.v)) /\ s.post.L[BuildFile(s.cmd.v)].h = s.cmd.src.h), "the added build is not stored under its name")
          \cup If(s.cmd.op = "add" /\ ~Ok(s) /\ CanAdd(s), "a valid name was not accepted")
          \cup If(s.cmd.op = "addpkg" /\ Ok(s) /\ ~Full(s.post.L, BuildFile(s.cmd.v)), "the added package is not stored under its name")
          \cup If(s.cmd.op = "install" /\ (Ok(s) # (Target(s) \in KnownBuilds(s.pre))), "the build is not known under exactly its name")
          \cup Failing_C01(s)
          \cup If(Ok(s) /\ \E p \in Creates(s) : p[1] # p[2] /\ Full(s.post.L, Pf(p)) /\ PairOf(Pf(p)) # p, "the name of the patch is read back as another pair")
          \cup If(s.cmd.op = "install" /\ Ok(s) /\ s.post.cur.n # BuildFile(Target(s)), "another build was installed")
          \cup (IF s.cmd.op = "install" THEN Failing_C05(s) ELSE {})
          \cup (IF s.cmd.op = "patch" THEN Failing_C07(s) ELSE {})
          \cup (IF s.cmd.op = "sync" THEN Failing_C08(s) ELSE {})
          \cup If(\E n \in New(s) : n \notin {BuildFile(v) : v \in KnownBuilds(s.pre) \cup NamesOf(s)}
                     /\ n \notin {PatchFile(p[1], p[2]) : p \in Creates(s) \cup KnownPatches(s.pre)}, "a file with an unexpected name was written"))

Failing(P, s) ==
    CASE P = "C01" -> Failing_C01(s) [] P = "C02" -> Failing_C02(s) [] P = "C05" -> Failing_C05(s)
      [] P = "C06" -> Failing_C06(s) [] P = "C07" -> Failing_C07(s) [] P = "C08" -> Failing_C08(s)
      [] P = "C09" -> Failing_C09(s) [] P = "C10" -> Failing_C10(s) [] P = "C11" -> Failing_C11(s)
      [] P = "C12" -> Failing_C12(s) [] P = "C14" -> Failing_C14(s) [] P = "C15" -> Failing_C15(s) [] P = "C17" -> Failing_C17(s) [] P = "C18" -> Failing_C18(s)
      [] P = "C19" -> Failing_C19(s) [] OTHER -> {}

-----------------------------------------------------------------------------
(* What a step exercises, for counting                                        *)
Kinds(s) ==
    {s.cmd.op} \cup If(Ok(s), s.cmd.op \o ":ok") \cup If(~Ok(s), s.cmd.op \o ":failed")
    \cup (IF s.cmd.op # "install" \/ ~Known(s, Target(s)) THEN {} ELSE
          If(AlreadyInstalled(s), "route:installed")
          \cup If(~AlreadyInstalled(s) /\ CachedIn(s.pre, Target(s)), "route:cached")
          \cup (IF ~AlreadyInstalled(s) /\ ~CachedIn(s.pre, Target(s))
                THEN IF ByPatches(s) THEN {"route:patches"}
                     \cup If(\E r \in Routes(s) : Len(Needed(s, r)) >= 2, "route:chain")
                     \cup If(\E r \in Routes(s) : Len(Needed(s, r)) < Len(r), "route:cached-part")
                     \cup If(\E r \in Routes(s) : ~GoodRoute(s, r), "route:fallback")
                     \cup If(\E r \in Routes(s) : FetchNames(s, r) # {Pf(p) : p \in Range(Needed(s, r))}, "route:local-patch")
                     \cup If(Cardinality(Routes(s)) > 1, "route:tie")
                     ELSE {"route:full"} \cup If(Upgrading(s) /\ Routes(s) # {}, "route:full-though-patches")
                ELSE {})
          \cup If(s.pre.cur.k = "dangling", "cur:dangling") \cup If(s.pre.cur.k = "none", "cur:none"))
    \cup If(Creates(s) \cap KnownPatches(s.pre) # {}, "patch:known")
    \cup If(NewPatches(s) # {} /\ Creates(s) # {}, "patch:new")
    \cup If(\E p \in Creates(s) : p[1] = p[2], "patch:self")
    \cup If(Uploads(s) /\ Missing(s) # {}, "upload:some") \cup If(Uploads(s) /\ Cardinality(Missing(s)) > 3, "upload:many")
    \cup If(DOMAIN s.pre.L # Kept(s.pre.L) \/ DOMAIN s.pre.R # Kept(s.pre.R), "strays")
    \cup If(s.disturbed, "disturbed") \cup If(s.damaged # <<>>, "damaged") \cup If(Rejected(s), "name:rejected")
    \cup If(Replaces(s) \cap BuildNames(s.pre.L) # {}, "add:replace")
    \cup (IF s.cmd.op = "auto" THEN LET n == Cardinality(Picks(s)) IN If(n > 1, "auto:many") \cup If(n = 0, "auto:none") \cup If(s.cmd.prefix # "", "auto:prefix") ELSE {})
=============================================================================
