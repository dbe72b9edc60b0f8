-------------------------------- MODULE Pack --------------------------------
(* Packages.  A path is a sequence of components, a component a sequence of bytes.
   A tree is the set of its regular files [p, m, h, s]: path below the root, permission bits, content, size.
   An archive is a sequence of entries [t, p, m, h, s]; t = "f" for a regular file.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE LessBytes(_, _, _)
LessBytes(a, b, i) ==            \* a comes before b
    IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE LessBytes(a, b, i + 1)
RECURSIVE LessPath(_, _, _)
LessPath(p, q, i) ==
    IF i > Len(q) THEN FALSE ELSE IF i > Len(p) THEN TRUE
    ELSE IF p[i] = q[i] THEN LessPath(p, q, i + 1) ELSE LessBytes(p[i], q[i], 1)
Before(p, q) == LessPath(p, q, 1)

Lab(cond, label) == IF cond THEN {label} ELSE {}
Elements(q) == {q[i] : i \in DOMAIN q}
File(e) == [p |-> e.p, m |-> e.m, h |-> e.h, s |-> e.s]

(* what is wrong with an archive of a tree *)
Unfaithful(files, entries) ==
    LET E == TLCEval({File(entries[i]) : i \in {j \in DOMAIN entries : entries[j].t = "f"}})
        paths == {e.p : e \in E} IN
    Lab(\E i \in DOMAIN entries : entries[i].t # "f", "an entry is no regular file")
    \cup Lab(\E f \in files : f.p \notin paths, "a file is missing")
    \cup Lab(\E e \in E : e.p \notin {f.p : f \in files}, "an entry which is not in the tree")
    \cup Lab(\E f \in files : f.p \in paths /\ f \notin E, "a file with another content or other permissions")
    \cup Lab(Len(entries) # Cardinality(paths), "a file occurs twice")
    \cup Lab(\E i \in 1..(Len(entries) - 1) : ~Before(entries[i].p, entries[i + 1].p), "the files are not in path order")

(* out: what the program made of one copy of the tree; first: of the first copy *)
Failing_C13(files, first, out) ==
    IF out.code # 0 THEN Lab(~out.disturbed, "the tree was not packaged")
    ELSE Lab(~out.clean, "the archive cannot be read to its end")
         \cup (IF out.h = first.h /\ first.code = 0 /\ out # first THEN {} ELSE Unfaithful(files, out.entries))
         \cup Lab(out.h # first.h /\ first.code = 0, "equal trees have different archives")
=============================================================================
