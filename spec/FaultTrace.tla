----------------------------- MODULE FaultTrace -----------------------------
(* Recorded executions of the real program with faults, kills and other processes, against Instants and Commands.

   A run is [init, procs, insts, post, ref, redo, later]: the picture before; the commands with their results (code -9: killed; with two of them, alone: how each ends without the other);
   the distinct pictures seen between any two file operations; the picture after; ref: the undisturbed run of the same command from
   the same picture; redo: the same command run again afterwards; later: further undisturbed commands after that (steps).       *)
EXTENDS Instants, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACES)
Prop == Input.prop
Pics == Input.pics
Raw == Input.runs
Plain(r) == LET x == Raw[r] IN     \* (pictures are given by their number)
    [init |-> Pics[x.init], procs |-> x.procs, insts |-> [i \in DOMAIN x.insts |-> Pics[x.insts[i]]], post |-> Pics[x.post],
     ref |-> [x.ref EXCEPT !.post = Pics[x.ref.post]], redo |-> [x.redo EXCEPT !.post = Pics[x.redo.post]],
     later |-> [i \in DOMAIN x.later |-> [x.later[i] EXCEPT !.post = Pics[x.later[i].post]]]]

NamesIn(w) == UNION ({DOMAIN w.R} \cup {DOMAIN w.Ls[m] : m \in DOMAIN w.Ls})
AllNames == UNION {NamesIn(Pics[i]) : i \in DOMAIN Pics}
ASSUME LET N == TLCEval(AllNames) IN
       /\ TLCSet(1, TLCEval([n \in N |-> PairsByName(n)]))
       /\ TLCSet(2, TLCEval([n \in N |-> BuildByName(n)]))
TablePairs(n) == LET T == TLCGet(1) IN IF n \in DOMAIN T THEN T[n] ELSE PairsByName(n)
TableBuild(n) == LET T == TLCGet(2) IN IF n \in DOMAIN T THEN T[n] ELSE BuildByName(n)

Autos == UNION {{Raw[r].procs[i].cmd : i \in {j \in DOMAIN Raw[r].procs : Raw[r].procs[j].cmd.op = "auto"}} : r \in DOMAIN Raw}
Sliced == UNION {{c.v} \cup Range(c.tags) \cup {c.prefix \o t : t \in Range(c.tags)} : c \in Autos}
          \cup (IF Autos = {} THEN {} ELSE {Chop(n, 8) : n \in {m \in AllNames : HasSuffix(m, ".tar.zst")}})
ASSUME TLCSet(3, TLCEval([n \in TLCEval(Sliced) |-> SliceOf(n)]))
TableSlice(n) == LET T == TLCGet(3) IN IF n \in DOMAIN T THEN T[n] ELSE SliceOf(n)

VARIABLES run, k, bad
vars == <<run, k, bad>>

Procs(r) == r.procs
Killed(p) == p.code = -9
Instant(r, w) ==
    CASE Prop = "C02" -> BadLinks(r.init, r.procs, w)
      [] Prop \in {"C03", "C17"} -> BadFiles(r.init, r.procs, w)
      [] Prop \in {"C16"} -> BadFiles(r.init, r.procs, w) \cup BadLinks(r.init, r.procs, w)
      [] OTHER -> {}

LaterSteps(r) == [i \in DOMAIN r.later |->
    LET x == r.later[i] w0 == IF i = 1 THEN (IF r.redo.has THEN r.redo.post ELSE r.post) ELSE r.later[i - 1].post
    IN ProcStep(w0, x.post, x)]

AtEnd(r) ==
    LET steps == {ProcStep(r.init, r.post, r.procs[i]) : i \in {j \in DOMAIN r.procs : ~Killed(r.procs[j])}}
        lone == Len(r.procs) = 1
        own == IF lone THEN UNION {Failing(Prop, s) : s \in steps} ELSE {}
        later == UNION {Failing(Prop, LaterSteps(r)[i]) : i \in DOMAIN r.later}
    IN CASE Prop = "C02" -> Instant(r, r.post) \cup own
         [] Prop = "C03" -> Instant(r, r.post)
               \cup (IF r.redo.has THEN BadFiles(r.init, r.procs, r.redo.post) ELSE {})
               \cup UNION {LET x == LaterSteps(r)[i] IN Failing_C08(x) \cup Failing_C18(x)
                              \cup (IF x.cmd.op = "install" THEN Failing_C01(x) ELSE IF x.cmd.op = "add" THEN Failing_C19(x) ELSE {}) : i \in DOMAIN r.later}
         [] Prop = "C04" -> IF ~r.redo.has \/ r.ref.code # 0 THEN {}
               ELSE If(r.redo.code # 0, "running the command again failed")
                    \cup If(r.redo.code = 0 /\ ~SameOutcome(r.ref.post, r.redo.post), "running the command again did not lead to the undisturbed result")
         [] Prop = "C06" -> own
         [] Prop = "C09" -> own \cup later
         [] Prop \in {"C11", "C12"} -> own
         [] Prop = "C14" -> own
         [] Prop = "C16" -> Instant(r, r.post)
               \cup UNION {Achieved(r.init, r.procs, r.post, r.procs[i]) : i \in {j \in DOMAIN r.procs : r.procs[j].code = 0}}
               \cup (IF r.redo.has /\ r.redo.code # 0 /\ r.ref.code = 0 THEN {"a later command failed"} ELSE {})
               \cup If(\E i \in DOMAIN r.procs : r.procs[i].alone = 0 /\ r.procs[i].code > 0, "a command failed that succeeds alone")
         [] Prop = "C17" -> Instant(r, r.post) \cup own
         [] OTHER -> {}

RunKinds(r) == {"run"} \cup UNION {If(Killed(r.procs[i]), "killed") \cup If(r.procs[i].code = 0, r.procs[i].cmd.op \o ":ok")
                          \cup If(r.procs[i].code > 0, r.procs[i].cmd.op \o ":failed") \cup If(r.procs[i].code > 0 /\ r.procs[i].disturbed, "failed-by-the-fault")
                          \cup If(r.procs[i].code = 0 /\ r.procs[i].disturbed, "survived-the-fault") \cup If(r.procs[i].bad # <<>>, "unreadable")
                          \cup If(r.procs[i].refused # <<>>, "refused") \cup If(r.procs[i].damaged # <<>>, "damaged:" \o r.procs[i].cmd.op)
                          \cup If(r.procs[i].damaged # <<>> /\ r.procs[i].code = 0, "damaged-but-ok")
                     : i \in DOMAIN r.procs}
                  \cup If(r.redo.has, "redo") \cup If(r.redo.has /\ r.ref.code = 0 /\ r.redo.code = 0, "redo:ok")
                  \cup If(Len(r.procs) > 1, "two-processes") \cup If(r.later # <<>>, "later")
                  \cup If(r.init.curs[r.procs[1].mach].k = "dangling", "cur:dangling") \cup If(r.init.curs[r.procs[1].mach].k = "none", "cur:none")
                  \cup If(\E n \in DOMAIN r.post.Ls[r.procs[1].mach] \cup DOMAIN r.post.R : HasPrefix(n, "._"), "leftovers")
Tell(r) == PrintT("STEP " \o ToJson([run |-> run, step |-> Len(r.insts), kinds |-> RunKinds(r)]))

Init == run = 0 /\ k = 0 /\ bad = {}
Start == run = 0 /\ \E r \in DOMAIN Raw : run' = r /\ k' = 0 /\ bad' = {}
Look == run > 0 /\ bad = {} /\ k < Len(Raw[run].insts) /\ k' = k + 1
        /\ bad' = TLCEval(LET R == Plain(run) IN Instant(R, R.insts[k'])) /\ UNCHANGED run
End == run > 0 /\ bad = {} /\ k = Len(Raw[run].insts) /\ k' = k + 1
       /\ bad' = TLCEval(AtEnd(Plain(run))) /\ Tell(Plain(run)) /\ UNCHANGED run
Next == Start \/ Look \/ End
Accepted == bad = {}
=============================================================================
