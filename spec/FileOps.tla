------------------------------- MODULE FileOps -------------------------------
(* The commands taken apart into single file operations: temporary files, chunks that are written one by one, renames, links.
   Two processes are interleaved at that grain; any operation can fail, a process can be killed between any two, and a command
   which was killed or failed is run again when things are calm.  What has to hold at every instant is what Instants asks of the
   pictures that are taken of the real program between its file operations.
   Flaw is the way of doing it: "" as designed, anything else is a design that has to fail.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Flaw, First, Second,   \* what the two processes may run ("none": nothing)
          Faults, Kills,         \* how many
          Chunks,                \* size of every file
          Brokens,               \* whether the patch can be applied
          Starts                 \* states of current at the start: "ok" "none" "dangling"
VARIABLE set                     \* which of these
Cmd1 == set.c1
Cmd2 == set.c2
Broken == set.broken
Start == set.start

Procs == {"p", "q"}
CmdOf(p) == IF p = "p" THEN Cmd1 ELSE Cmd2
Builds == {"1", "2", "3"}
Patches == {"1-2", "2-3"}
Names == Builds \cup Patches
Stores == {"L", "R"}
Ends(n) == IF n = "1-2" THEN <<"1", "2">> ELSE <<"2", "3">>
Temp(p, n) == IF Flaw \in {"shared", "exclusive", "append"} THEN "tmp" \o n ELSE "tmp" \o p \o n
LinkTemp(p) == IF Flaw \in {"shared", "exclusive", "linkname"} THEN "tmpcur" ELSE "tmpcur" \o p

(* what a file with a name may hold; version 3 can be added with another content *)
Legit(n) == IF n = "3" /\ "add3" \in {Cmd1, Cmd2} THEN {"3", "3x"} ELSE {n}

VARIABLES ino,      \* inodes: sequence of chunks written so far, each the content it belongs to
          fs,       \* [store, name] -> inode or 0
          links,    \* name -> name of a build, "" when absent
          proc, faults, kills, calm
vars == <<set, ino, fs, links, proc, faults, kills, calm>>

AllTemps == {Temp(p, n) : p \in Procs, n \in Names}
Paths == Stores \X (Names \cup AllTemps)
LinkNames == {"current"} \cup {LinkTemp(p) : p \in Procs}
Whole(c) == [i \in 1..Chunks |-> c]
There(S, n) == fs[<<S, n>>] # 0
Data(S, n) == ino[fs[<<S, n>>]]
Complete(S, n) == There(S, n) /\ \E c \in Legit(n) : Data(S, n) = Whole(c)

T(t, S, n, from) == [t |-> t, S |-> S, n |-> n, from |-> from]
Known(n) == There("L", n) \/ There("R", n)
KnownPatch(n) == Known(n) /\ Known(Ends(n)[1]) /\ Known(Ends(n)[2])
Resolves == links["current"] # "" /\ There("L", links["current"])
InstallOf(v) ==
    LET link == <<T("link", "L", v, "")>>
        here == IF Resolves THEN links["current"] ELSE ""
        way == {n \in Patches : KnownPatch(n) /\ Ends(n) = <<here, v>>}
        get == IF Flaw = "early" THEN link \o <<T("get", "L", v, "R")>> ELSE <<T("get", "L", v, "R")>> \o link
    IN IF here = v THEN <<>> ELSE IF ~Known(v) THEN <<T("fail", "", "", "")>> ELSE
       IF ~There("L", v) /\ way # {} THEN LET n == CHOOSE x \in way : TRUE IN <<T("get", "L", n, "R"), T("apply", "L", v, n)>> \o get
       ELSE get
PatchOf(n) == <<T("get", "L", Ends(n)[1], "R"), T("get", "L", Ends(n)[2], "R")>> \o
              (IF KnownPatch(n) THEN <<T("get", "L", n, "R")>> ELSE <<T("diff", "L", n, "")>>)
RECURSIVE Each(_)
Each(N) == IF N = {} THEN <<>> ELSE LET n == CHOOSE x \in N : TRUE IN <<T("put", "R", n, "L")>> \o Each(N \ {n})
Missing == {n \in Names : There("L", n) /\ ~There("R", n) /\ (n \in Patches => KnownPatch(n))}
Plan(c) == CASE c = "install2" -> InstallOf("2") [] c = "install1" -> InstallOf("1") [] c = "install3" -> InstallOf("3")
             [] c = "add3" -> <<T("add", "L", "3", "3x")>>
             [] c = "patch12" -> PatchOf("1-2") [] c = "patch23" -> PatchOf("2-3")
             [] c = "sync" -> Each(Missing)
             [] OTHER -> <<>>

Idle == [st |-> "new", todo |-> <<>>, stage |-> "", fd |-> 0, src |-> 0, at |-> 0, again |-> FALSE]
InitFiles == {<<"L", "1">>, <<"R", "2">>, <<"R", "1-2">>} \cup (IF Start = "dangling" THEN {<<"R", "1">>, <<"L", "3">>} ELSE {})
             \cup (IF "patch23" \in {Cmd1, Cmd2} \/ "install3" \in {Cmd1, Cmd2} THEN {<<"R", "3">>} ELSE {})
InitNames == {x[2] : x \in InitFiles}
InitInode(n) == CASE n = "1" -> 1 [] n = "2" -> 2 [] n = "3" -> 3 [] n = "1-2" -> 4 [] OTHER -> 5
Init == /\ set \in [c1 : First, c2 : Second, broken : Brokens, start : Starts]
        /\ ino = [i \in 1..5 |-> Whole(CASE i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] i = 4 -> "1-2" [] OTHER -> "2-3")]
        /\ fs = [x \in Paths |-> IF x \in InitFiles /\ ~(Start = "dangling" /\ x = <<"L", "1">>) THEN InitInode(x[2]) ELSE 0]
        /\ links = [n \in LinkNames |-> IF n = "current" /\ Start # "none" THEN "1" ELSE ""]
        /\ proc = [p \in Procs |-> Idle] /\ faults = 0 /\ kills = 0 /\ calm = FALSE

-----------------------------------------------------------------------------
Now(p) == Head(proc[p].todo)
Set(p, r) == proc' = [proc EXCEPT ![p] = r]
Finished(p) == LET q == Tail(proc[p].todo) IN
    [proc[p] EXCEPT !.todo = q, !.stage = "", !.fd = 0, !.src = 0, !.at = 0, !.st = IF q = <<>> THEN "ok" ELSE "run"]
(* a failed application of a patch is no failure of the install *)
Dest(p) == IF Flaw = "inplace" THEN <<Now(p).S, Now(p).n>> ELSE <<Now(p).S, Temp(p, Now(p).n)>>
Target(p) == <<Now(p).S, Now(p).n>>
Given_up(p) == IF Now(p).t \in {"apply"} \/ (Now(p).t = "get" /\ Now(p).n \in Patches /\ Len(proc[p].todo) > 1 /\ proc[p].todo[2].t = "apply")
               THEN IF Now(p).t = "apply" THEN Finished(p) ELSE [Finished(p) EXCEPT !.todo = Tail(Tail(proc[p].todo))]
               ELSE [proc[p] EXCEPT !.st = "failed", !.todo = <<>>, !.stage = "", !.fd = 0, !.src = 0, !.at = 0]
(* what is tidied up when an operation fails *)
Tidied(p) == CASE Flaw = "keep" /\ proc[p].fd # 0 -> [fs EXCEPT ![Target(p)] = proc[p].fd, ![Dest(p)] = IF Dest(p) = Target(p) THEN @ ELSE 0]
               [] Flaw = "purge" /\ proc[p].fd # 0 -> [fs EXCEPT ![Target(p)] = 0, ![Dest(p)] = 0]
               [] proc[p].fd # 0 -> [fs EXCEPT ![Dest(p)] = 0]
               [] OTHER -> fs
Abort(p) == fs' = Tidied(p) /\ Set(p, Given_up(p)) /\ UNCHANGED <<ino, links>>
Fault(p) == ~calm /\ faults < Faults /\ faults' = faults + 1 /\ Abort(p)

Begin(p) == proc[p].st = "new" /\ CmdOf(p) # "none"
    /\ LET todo == Plan(CmdOf(p)) IN Set(p, [proc[p] EXCEPT !.todo = todo, !.st = IF todo = <<>> THEN "ok" ELSE "run"])
    /\ UNCHANGED <<ino, fs, links, faults>>
Running(p, S) == proc[p].st = "run" /\ Now(p).t \in S /\ proc[p].stage = ""
NoPlan(p) == Running(p, {"fail"}) /\ Set(p, [Idle EXCEPT !.st = "failed", !.again = proc[p].again]) /\ UNCHANGED <<ino, fs, links, faults>>

(* get: nothing to do when the file is here *)
Skip(p) == Running(p, {"get"}) /\ There("L", Now(p).n) /\ Set(p, Finished(p)) /\ UNCHANGED <<ino, fs, links, faults>>
Gone(p) == Running(p, {"get"}) /\ ~There("L", Now(p).n) /\ ~There("R", Now(p).n) /\ Abort(p) /\ UNCHANGED faults
NeedsSource(t) == t \in {"get", "put"}
MayOpen(p) == CASE Now(p).t = "get" -> ~There("L", Now(p).n) /\ There("R", Now(p).n)
               [] Now(p).t = "put" -> There("L", Now(p).n)
               [] Now(p).t = "apply" -> There("L", Now(p).from) /\ There("L", Ends(Now(p).from)[1])
               [] OTHER -> TRUE
SourceOf(p) == CASE Now(p).t = "get" -> fs[<<"R", Now(p).n>>] [] Now(p).t = "put" -> fs[<<"L", Now(p).n>>] [] OTHER -> 0
Create(p) == Running(p, {"get", "put", "apply", "diff", "add"}) /\ MayOpen(p)
    /\ \/ Flaw = "exclusive" /\ fs[Dest(p)] # 0 /\ Abort(p) /\ UNCHANGED faults
       \/ ~(Flaw = "exclusive" /\ fs[Dest(p)] # 0)
          /\ LET old == fs[Dest(p)] i == IF old # 0 THEN old ELSE Len(ino) + 1 IN
             /\ ino' = (IF old = 0 THEN Append(ino, <<>>) ELSE IF Flaw = "append" THEN ino ELSE [ino EXCEPT ![i] = <<>>])
             /\ fs' = [fs EXCEPT ![Dest(p)] = i]
             /\ Set(p, [proc[p] EXCEPT !.stage = "open", !.fd = i, !.src = SourceOf(p), !.at = IF Flaw = "append" /\ old # 0 THEN Len(ino[old]) ELSE 0])
             /\ UNCHANGED <<links, faults>>
       \/ Fault(p)
(* chunk k of what is being written *)
Chunk(p) == CASE Now(p).t \in {"get", "put"} -> IF Len(ino[proc[p].src]) > proc[p].at THEN ino[proc[p].src][proc[p].at + 1] ELSE "?"
              [] Now(p).t = "apply" -> IF Data("L", Ends(Now(p).from)[1]) = Whole(Ends(Now(p).from)[1]) THEN Now(p).n ELSE "?"
              [] Now(p).t = "diff" -> Now(p).n
              [] OTHER -> Now(p).from
WriteAt(d, k, c) == IF k <= Len(d) THEN [d EXCEPT ![k] = c] ELSE [i \in 1..k |-> IF i <= Len(d) THEN d[i] ELSE IF i = k THEN c ELSE "?"]
Write(p) == proc[p].st = "run" /\ proc[p].stage = "open" /\ proc[p].at < Chunks
    /\ \/ Now(p).t = "apply" /\ Broken /\ proc[p].at = 1 /\ Abort(p) /\ UNCHANGED faults
       \/ ~(Now(p).t = "apply" /\ Broken /\ proc[p].at = 1)
          /\ ino' = [ino EXCEPT ![proc[p].fd] = WriteAt(@, proc[p].at + 1, Chunk(p))]
          /\ Set(p, [proc[p] EXCEPT !.at = @ + 1]) /\ UNCHANGED <<fs, links, faults>>
       \/ Fault(p)
Rename(p) == proc[p].st = "run" /\ proc[p].stage = "open" /\ proc[p].at >= (IF Flaw = "eager" THEN Chunks - 1 ELSE Chunks)
    /\ \/ fs[Dest(p)] # 0 /\ Flaw # "eager"
          /\ fs' = (IF Dest(p) = Target(p) THEN fs
                    ELSE IF Flaw = "tidy" THEN [x \in Paths |-> IF x = Target(p) THEN fs[Dest(p)]      \* takes others' files for leftovers
                                                                ELSE IF x[1] = Now(p).S /\ x[2] \in {Temp(q, Now(p).n) : q \in Procs} THEN 0 ELSE fs[x]]
                    ELSE [fs EXCEPT ![Target(p)] = fs[Dest(p)], ![Dest(p)] = 0])
          /\ Set(p, Finished(p)) /\ UNCHANGED <<ino, links, faults>>
       \/ Flaw = "eager" /\ proc[p].at = Chunks - 1 /\ fs[Dest(p)] # 0      \* into place first, the rest afterwards
          /\ fs' = [fs EXCEPT ![Target(p)] = fs[Dest(p)], ![Dest(p)] = 0]
          /\ UNCHANGED <<ino, links, faults, proc>>
       \/ Flaw = "eager" /\ proc[p].at = Chunks /\ fs[Dest(p)] = 0 /\ Set(p, Finished(p)) /\ UNCHANGED <<ino, fs, links, faults>>
       \/ fs[Dest(p)] = 0 /\ Flaw # "eager" /\ Abort(p) /\ UNCHANGED faults
       \/ Flaw # "eager" /\ Fault(p)
MakeLink(p) == Running(p, {"link"})
    /\ \/ links' = [links EXCEPT ![IF Flaw = "unlink" THEN "current" ELSE LinkTemp(p)] = IF Flaw = "unlink" THEN "" ELSE Now(p).n]
          /\ Set(p, [proc[p] EXCEPT !.stage = "linked"]) /\ UNCHANGED <<ino, fs, faults>>
       \/ Fault(p)
MoveLink(p) == proc[p].st = "run" /\ proc[p].stage = "linked"
    /\ \/ Flaw = "unlink" /\ links' = [links EXCEPT !["current"] = Now(p).n] /\ Set(p, Finished(p)) /\ UNCHANGED <<ino, fs, faults>>
       \/ Flaw # "unlink" /\ links[LinkTemp(p)] # "" /\ links' = [links EXCEPT !["current"] = links[LinkTemp(p)], ![LinkTemp(p)] = ""]
          /\ Set(p, Finished(p)) /\ UNCHANGED <<ino, fs, faults>>
       \/ Flaw # "unlink" /\ links[LinkTemp(p)] = "" /\ Abort(p) /\ UNCHANGED faults
       \/ Fault(p)

Go(p) == UNCHANGED <<kills, calm>> /\ (Begin(p) \/ NoPlan(p) \/ Skip(p) \/ Gone(p) \/ Create(p) \/ Write(p) \/ Rename(p) \/ MakeLink(p) \/ MoveLink(p))
Kill(p) == ~calm /\ kills < Kills /\ proc[p].st = "run" /\ kills' = kills + 1 /\ Set(p, [Idle EXCEPT !.st = "killed"])
           /\ UNCHANGED <<ino, fs, links, faults, calm>>
(* what was killed or failed is run again, and from then on nothing goes wrong *)
Again(p) == proc[p].st \in {"killed", "failed"} /\ ~proc[p].again /\ \A r \in Procs : proc[r].st # "run"
            /\ calm' = TRUE /\ Set(p, [Idle EXCEPT !.again = TRUE]) /\ UNCHANGED <<ino, fs, links, faults, kills>>
Next == UNCHANGED set /\ \E p \in Procs : Go(p) \/ Kill(p) \/ Again(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
AllOrNothing == \A S \in Stores, n \in Names : There(S, n) => Complete(S, n)
Installs == {IF c = "install1" THEN "1" ELSE IF c = "install2" THEN "2" ELSE "3" : c \in {Cmd1, Cmd2} \cap {"install1", "install2", "install3"}}
CurrentKept == LET c == links["current"] IN
    CASE Start = "ok" -> c \in {"1"} \cup Installs /\ Complete("L", c)
      [] Start = "none" -> c = "" \/ (c \in Installs /\ Complete("L", c))
      [] OTHER -> c = "1" \/ (c \in Installs /\ Complete("L", c))
NothingLost == [][\A S \in Stores, n \in Names : There(S, n) => fs'[<<S, n>>] # 0]_vars
TargetOf(c) == IF c = "install1" THEN "1" ELSE IF c = "install2" THEN "2" ELSE IF c = "install3" THEN "3" ELSE "none"
(* what p has installed is current, unless an install that did not fail came afterwards *)
Switched(c) == links["current"] \in {TargetOf(c)} \cup {TargetOf(CmdOf(q)) : q \in {x \in Procs : proc[x].st # "failed"}}
Effect(c) == CASE c = "install2" -> Switched(c) /\ Complete("L", "2")
               [] c = "install1" -> Switched(c) /\ Complete("L", "1")
               [] c = "install3" -> Switched(c) /\ Complete("L", "3")
               [] c = "add3" -> Complete("L", "3")
               [] c = "patch12" -> Complete("L", "1-2")
               [] c = "patch23" -> Complete("L", "2-3")
               [] OTHER -> TRUE
Achieved == \A p \in Procs : proc[p].st = "ok" => Effect(CmdOf(p))
(* nobody fails because of the other: without faults only those fail who have nothing to work with, alone or not *)
CanAlone(c) == c # "install3" \/ "3" \in InitNames
Unharmed == faults = 0 => \A p \in Procs : proc[p].st = "failed" => ~CanAlone(CmdOf(p))
Sole == Cmd2 = "none" => (proc["p"].st = "ok" /\ Cmd1 = "sync" => Missing = {})
Rerunnable == \A p \in Procs : proc[p].again => proc[p].st # "failed"
(* alone, undisturbed or run again after one disturbance, every command leads to the same stores *)
Final(S) == {n \in Names : There(S, n)}
Expected(c) == LET l == {x[2] : x \in {y \in InitFiles : y[1] = "L" /\ ~(Start = "dangling" /\ y[2] = "1")}} IN
    CASE c = "install2" -> l \cup {"2"} \cup (IF Start = "ok" THEN {"1-2"} ELSE {})
      [] c = "install1" -> l \cup {"1"} [] c = "install3" -> l \cup {"3"} [] c = "add3" -> l \cup {"3"}
      [] c = "patch12" -> l \cup {"1", "2", "1-2"} [] c = "patch23" -> l \cup {"2", "3", "2-3"} [] OTHER -> l
Alike == faults + kills <= 1 /\ Cmd2 = "none" /\ proc["p"].st = "ok" /\ (faults = 0 \/ proc["p"].again) => Final("L") = Expected(Cmd1)
Ends_ == <>[](\A p \in Procs : CmdOf(p) # "none" => proc[p].st \in {"ok", "failed", "killed"})
=============================================================================
