----------------------------- MODULE PackTrace -----------------------------
(* Archives which the real program made of copies of trees, against Pack.  A run is [files, outs]; outs[1] is of the first copy.
   The entries of an archive which equals the first one are not repeated.                                                   *)
EXTENDS Pack, Json, IOUtils

Input == JsonDeserialize(IOEnv.TRACES)
Runs == Input.runs
VARIABLES run, k, bad
vars == <<run, k, bad>>
Tell(o) == PrintT("STEP " \o ToJson([run |-> run, step |-> k + 1, kinds |-> {"pack:" \o o.how} \cup Lab(o.code = 0, "pack:ok") \cup Lab(o.code # 0, "pack:failed")]))
Init == run = 0 /\ k = 0 /\ bad = {}
Start == run = 0 /\ \E r \in DOMAIN Runs : run' = r /\ k' = 0 /\ bad' = {}
Look == run > 0 /\ bad = {} /\ k < Len(Runs[run].outs) /\ k' = k + 1
        /\ LET r == Runs[run] o == r.outs[k'] IN bad' = TLCEval(Failing_C13(Elements(r.files), r.outs[1], o)) /\ Tell(o)
        /\ UNCHANGED run
Next == Start \/ Look
Accepted == bad = {}
=============================================================================
