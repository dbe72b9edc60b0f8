------------------------------- MODULE Trace -------------------------------
(* Recorded histories of the real program against Commands.

   The file IOEnv.TRACES is [prop, runs]; a run is [init, items]; init holds the local stores and current links
   of the machines and the remote; an item is either an edit of the world by the driver ("env") or a command with everything that was
   observed of it.  The world before a command is the one this specification has arrived at; the command
   is accepted when the step satisfies the property.                                                    *)
EXTENDS Commands, TLC, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACES)
Prop == Input.prop
Runs == Input.runs

(* names are taken apart once *)
NamesIn(w) == UNION ({DOMAIN w.R} \cup {DOMAIN w.Ls[m] : m \in DOMAIN w.Ls})
AllNames == UNION {NamesIn(Runs[r].init) : r \in DOMAIN Runs}
    \cup UNION {UNION {DOMAIN Runs[r].items[i].post.L \cup DOMAIN Runs[r].items[i].post.R : i \in DOMAIN Runs[r].items} : r \in DOMAIN Runs}
ASSUME LET N == TLCEval(AllNames) IN
       /\ TLCSet(1, TLCEval([n \in N |-> PairsByName(n)]))
       /\ TLCSet(2, TLCEval([n \in N |-> BuildByName(n)]))
TablePairs(n) == LET T == TLCGet(1) IN IF n \in DOMAIN T THEN T[n] ELSE PairsByName(n)
TableBuild(n) == LET T == TLCGet(2) IN IF n \in DOMAIN T THEN T[n] ELSE BuildByName(n)

Autos == UNION {{Runs[r].items[i].cmd : i \in {j \in DOMAIN Runs[r].items : Runs[r].items[j].kind = "cmd" /\ Runs[r].items[j].cmd.op = "auto"}} : r \in DOMAIN Runs}
Sliced == UNION {{c.v} \cup Range(c.tags) \cup {c.prefix \o t : t \in Range(c.tags)} : c \in Autos}
          \cup (IF Autos = {} THEN {} ELSE {Chop(n, 8) : n \in {m \in AllNames : HasSuffix(m, ".tar.zst")}})
ASSUME TLCSet(3, TLCEval([n \in TLCEval(Sliced) |-> SliceOf(n)]))
TableSlice(n) == LET T == TLCGet(3) IN IF n \in DOMAIN T THEN T[n] ELSE SliceOf(n)

VARIABLES run, k, world, bad
vars == <<run, k, world, bad>>

Init == run = 0 /\ k = 0 /\ world = <<>> /\ bad = {}
Start == run = 0 /\ \E r \in DOMAIN Runs : run' = r /\ world' = Runs[r].init
         /\ k' = 0 /\ bad' = {}
Item == Runs[run].items[k + 1]
Here(w, m) == [L |-> w.Ls[m], R |-> w.R, O |-> w.O, cur |-> w.curs[m]]
After == [world EXCEPT !.Ls[Item.mach] = Item.post.L, !.R = Item.post.R, !.O = Item.post.O, !.curs[Item.mach] = Item.post.cur]

StepOf(i) == TLCEval([cmd |-> IF i.cmd.op = "add" THEN [i.cmd EXCEPT !.v = StemVersion(i.cmd.file)] ELSE i.cmd,
              pre |-> Here(world, i.mach), post |-> i.post, code |-> i.code,
              reads |-> i.reads, puts |-> i.puts, bad |-> i.bad, refused |-> i.refused, disturbed |-> i.disturbed, damaged |-> <<>>])
Judge(s) == TLCEval(Failing(Prop, s) \cup (IF Prop = "C15" THEN Twins(s, Item.twin) ELSE {}))
Tell(s) == PrintT("STEP " \o ToJson([run |-> run, step |-> k + 1, kinds |-> Kinds(s) \cup (IF Prop = "C15" THEN If(Comparable(s, Item.twin), "twin") \cup If(DOMAIN s.pre.O # {}, "outside") ELSE {})]))

Edit == run > 0 /\ k < Len(Runs[run].items) /\ Item.kind = "env" /\ bad = {}
        /\ world' = After /\ bad' = {} /\ k' = k + 1 /\ UNCHANGED run
Command == run > 0 /\ k < Len(Runs[run].items) /\ Item.kind = "cmd" /\ bad = {}
        /\ LET s == StepOf(Item) IN bad' = Judge(s) /\ Tell(s)
        /\ world' = After /\ k' = k + 1 /\ UNCHANGED run
Next == Start \/ Edit \/ Command
Accepted == bad = {}
Seen == <<run, k, bad>>
=============================================================================
