------------------------------ MODULE Download ------------------------------
(* A client fetches an object over a line which may alter, cut or extend the body and the checksum that goes with it.
   A body is a sequence of symbols; the checksum of a body is the body itself (no two bodies share one).
   Client: what it compares before it keeps what it got.
     "sum"     checksum and that there is one            "length"   only the number of symbols
     "prefix"  the part of the checksum that arrived     "small"    bodies above a size are not compared
     "none"    a missing checksum is taken for right     "first"    keeps first, compares then                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Client, Symbols, MaxLen
Bodies == UNION {[1..n -> Symbols] : n \in 1..MaxLen}
All == Bodies \cup {<<>>}
NoSum == <<-1>>
VARIABLES object, line, store, used, pc
vars == <<object, line, store, used, pc>>
Init == object \in Bodies /\ line = [body |-> object, sum |-> object, whole |-> TRUE] /\ store = {} /\ used = {} /\ pc = "sent"
Damage == pc = "sent" /\ UNCHANGED <<object, store, used, pc>>
          /\ \/ line.body = object /\ line.sum = object /\ line.whole /\ \E b \in All : line' = [line EXCEPT !.body = b]
             \/ line.sum = object /\ \E b \in All \cup {NoSum} : line' = [line EXCEPT !.sum = b]
             \/ line.whole /\ \E n \in 0..(Len(line.body) - 1) : line' = [line EXCEPT !.body = SubSeq(line.body, 1, n), !.whole = FALSE]
Matches == CASE Client = "sum" -> line.sum # NoSum /\ line.sum = line.body
             [] Client = "length" -> line.sum # NoSum /\ Len(line.sum) = Len(line.body)
             [] Client = "prefix" -> line.sum # NoSum /\ Len(line.sum) <= Len(line.body) /\ SubSeq(line.body, 1, Len(line.sum)) = line.sum
             [] Client = "small" -> line.sum # NoSum /\ (Len(line.body) > 1 \/ line.sum = line.body)
             [] Client = "none" -> line.sum = NoSum \/ line.sum = line.body
             [] OTHER -> line.sum # NoSum /\ line.sum = line.body
Fits == line.whole /\ line.body # <<>> /\ Matches
KeepFirst == Client = "first" /\ pc = "sent" /\ store' = {line.body} /\ pc' = "kept" /\ UNCHANGED <<object, line, used>>
Receive == ((pc = "sent" /\ Client # "first") \/ pc = "kept") /\ pc' = (IF Fits THEN "ok" ELSE "failed")
           /\ store' = (IF Fits THEN {line.body} ELSE store) /\ UNCHANGED <<object, line, used>>
Use == pc = "ok" /\ pc' = "done" /\ used' = store /\ UNCHANGED <<object, line, store>>
Next == Damage \/ KeepFirst \/ Receive \/ Use
(* a body which matches the checksum that arrived with it is all a client can ask for *)
Right == {line.body} \cap (IF line.whole /\ line.sum # NoSum /\ line.sum = line.body /\ line.body # <<>> THEN {line.body} ELSE {})
NothingDamaged == store \subseteq Right /\ used \subseteq store
Undamaged == pc = "failed" => line # [body |-> object, sum |-> object, whole |-> TRUE]
=============================================================================
