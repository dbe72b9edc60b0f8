------------------------------- MODULE Bucket -------------------------------
(* A bucket as a directory.  Keys, paths and names are sequences of characters; the server lists keys by prefix and delimiter,
   in pages; the client asks page after page.  What it has found in the end has to be what lies directly below the path.
   How = "right", or one of the flaws: "bare" (prefix without slash) "deep" (no delimiter) "onepage" "again" (starts over)
   "marker" (takes the object at the path itself for a file) "slashes" (slashes at the ends of the path are kept)
   "lost" (the last key of a full page is skipped)                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS How, PathChars, KeyChars, MaxPath, MaxKey, MaxObjects, Page, Paths
S == "/"
Strings(C, n) == UNION {[1..k -> C] : k \in 0..n}
RECURSIVE TrimL(_)
TrimL(p) == IF p # <<>> /\ p[1] = S THEN TrimL(Tail(p)) ELSE p
RECURSIVE TrimR(_)
TrimR(p) == IF p # <<>> /\ p[Len(p)] = S THEN TrimR(SubSeq(p, 1, Len(p) - 1)) ELSE p
Root(p) == TrimR(TrimL(p))
Below(p) == IF Root(p) = <<>> THEN <<>> ELSE Root(p) \o <<S>>
Starts(k, p) == Len(k) >= Len(p) /\ SubSeq(k, 1, Len(p)) = p
Rest(k, p) == SubSeq(k, Len(p) + 1, Len(k))
Plain(n) == n # <<>> /\ \A i \in DOMAIN n : n[i] # S
Name(k, p) == Rest(k, Below(p))
(* the specification: the files of the directory at path p *)
Files(B, p) == {Name(k, p) : k \in {x \in B : Starts(x, Below(p)) /\ Plain(Name(x, p))}}
Key(p, n) == Below(p) \o n

(* the server *)
Ord(c) == CASE c = "/" -> 1 [] c = "a" -> 2 [] OTHER -> 3
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN Ord(a[1]) < Ord(b[1]) ELSE Less(Tail(a), Tail(b))
Group(k, pre, delim) == LET r == Rest(k, pre) D == {i \in DOMAIN r : r[i] = S} IN
    IF delim /\ D # {} THEN [k |-> pre \o SubSeq(r, 1, CHOOSE i \in D : \A j \in D : i <= j), t |-> "p"] ELSE [k |-> k, t |-> "k"]
Items(B, pre, delim) == {Group(k, pre, delim) : k \in {x \in B : Starts(x, pre)}}
RECURSIVE Sorted(_)
Sorted(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE x \in X : \A y \in X : x = y \/ Less(x.k, y.k) IN <<m>> \o Sorted(X \ {m})
Answer(B, pre, delim, from, page) ==
    LET q == Sorted(Items(B, pre, delim)) to == IF from + page < Len(q) THEN from + page ELSE Len(q)
    IN [found |-> {q[i].k : i \in {j \in (from + 1)..to : q[j].t = "k"}}, more |-> to < Len(q), next |-> to, last |-> IF to > from THEN q[to].k ELSE <<>>]

VARIABLES bucket, path, found, token, pc
vars == <<bucket, path, found, token, pc>>
AllKeys == Strings(KeyChars, MaxKey) \ {<<>>}
Init == bucket = {} /\ path = <<>> /\ found = {} /\ token = 0 /\ pc = "new"
Set(n) == {B \in SUBSET AllKeys : Cardinality(B) <= n}
Start == pc = "new" /\ path' \in (IF Paths = {} THEN Strings(PathChars, MaxPath) ELSE Paths) /\ pc' = "filling" /\ UNCHANGED <<bucket, found, token>>
Put == pc = "filling" /\ Cardinality(bucket) < MaxObjects
       /\ \E k \in AllKeys : (\A x \in bucket : Less(x, k)) /\ bucket' = bucket \cup {k}
       /\ UNCHANGED <<path, found, token, pc>>
List == pc = "filling" /\ pc' = "list" /\ UNCHANGED <<bucket, path, found, token>>
Prefix == CASE How = "bare" -> Root(path) [] How = "slashes" -> (IF path = <<>> THEN <<>> ELSE TrimL(path) \o <<S>>) [] OTHER -> Below(path)
Ask == pc = "list" /\ LET a == Answer(bucket, Prefix, How # "deep", token, Page) IN
         /\ found' = found \cup (IF How = "lost" /\ a.more THEN a.found \ {a.last} ELSE a.found)
         /\ token' = IF How = "again" THEN token ELSE a.next
         /\ pc' = IF a.more /\ How \notin {"onepage", "again"} THEN "list" ELSE "done"
         /\ UNCHANGED <<bucket, path>>
Next == Start \/ Put \/ List \/ Ask
BaseName(k) == LET D == {i \in DOMAIN k : k[i] = S} IN IF D = {} THEN k ELSE SubSeq(k, (CHOOSE i \in D : \A j \in D : j <= i) + 1, Len(k))
Seen == {BaseName(k) : k \in found}
Result == IF How = "marker" THEN {IF BaseName(k) = <<>> THEN <<"?">> ELSE BaseName(k) : k \in found} ELSE Seen \ {<<>>}
Directory == pc = "done" => Result = Files(bucket, path)
RoundTrip == \A n \in {<<"a">>, <<"b", "a">>} : Files({Key(path, n)}, path) = {n}
=============================================================================
