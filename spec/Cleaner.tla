------------------------------ MODULE Cleaner ------------------------------
(* Cleaning bytecode caches below a directory (C19).
   A file system is a set of entries [p |-> path, k |-> "d" | "f" | "l", t |-> path of the target of a link].
   The cleaner lists the cache directories below the given path, and (unless it is a dry run) takes away
   what is in them, one entry at a time, in any order that empties a directory before removing it.
   Another process may take away one entry under its feet; a directory may be locked against changes.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, In(_)     \* input: [fs, root, dry, gone, locked]

VARIABLES id, in, fs, pc, listed, gone
vars == <<id, in, fs, pc, listed, gone>>

CacheName == "__pycache__"

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Strict(a, b) == Len(a) < Len(b) /\ IsPrefix(a, b)
Parent(p) == SubSeq(p, 1, Len(p) - 1)
At(f, p) == IF \E e \in f : e.p = p THEN (CHOOSE e \in f : e.p = p).k ELSE "-"

\* follow links (at most three in a row; a dangling or circular one leads nowhere)
RECURSIVE Follow(_, _, _)
Follow(f, p, n) == IF p = <<>> THEN <<>>
                   ELSE IF At(f, p) = "l" THEN IF n = 0 THEN <<"?">> ELSE Follow(f, (CHOOSE e \in f : e.p = p).t, n - 1)
                   ELSE p
IsDir(f, p) == LET q == Follow(f, p, 3) IN q = <<>> \/ At(f, q) = "d"

\* ---- what the property says ------------------------------------------------
\* Reached without going through a link: every directory strictly between is a real one by construction of paths.
Caches(f, r) == {e.p : e \in {e \in f : Strict(r, e.p) /\ e.p[Len(e.p)] = CacheName /\ IsDir(f, e.p)}}
Inside(f, r) == {e \in f : \E c \in Caches(f, r) : IsPrefix(c, e.p)}

\* ---- the machine -----------------------------------------------------------
Top == Follow(in.fs, in.root, 3)      \* the path itself may be a link to a directory

Init == /\ id \in 1..N /\ in = In(id) /\ fs = in.fs /\ pc = "start" /\ listed = {} /\ gone = FALSE

Refuse == pc = "start" /\ ~IsDir(fs, in.root) /\ pc' = "refused" /\ UNCHANGED <<id, in, fs, listed, gone>>
List == /\ pc = "start" /\ IsDir(fs, in.root)
        /\ listed' = Caches(fs, Top)
        /\ pc' = IF in.dry THEN "done" ELSE "delete"
        /\ UNCHANGED <<id, in, fs, gone>>
Leaf(e) == ~\E x \in fs : Strict(e.p, x.p)
Mine == {e \in fs : \E c \in listed : IsPrefix(c, e.p)}
Locked(e) == in.locked # <<>> /\ Parent(e.p) = in.locked
Delete == /\ pc = "delete"
          /\ \E e \in Mine : Leaf(e) /\ ~Locked(e) /\ fs' = fs \ {e}
          /\ UNCHANGED <<id, in, pc, listed, gone>>
Fail == /\ pc = "delete" /\ \E e \in Mine : Leaf(e) /\ Locked(e)
        /\ pc' = "failed" /\ UNCHANGED <<id, in, fs, listed, gone>>
Vanish == /\ pc = "delete" /\ in.gone # <<>> /\ ~gone
          /\ fs' = {e \in fs : ~IsPrefix(in.gone, e.p)} /\ gone' = TRUE
          /\ UNCHANGED <<id, in, pc, listed>>
Done == pc = "delete" /\ Mine = {} /\ pc' = "done" /\ UNCHANGED <<id, in, fs, listed, gone>>
Next == Refuse \/ List \/ Delete \/ Fail \/ Vanish \/ Done

\* ---- properties ------------------------------------------------------------
Before == Inside(in.fs, Top)
Interfered(e) == in.gone # <<>> /\ IsPrefix(in.gone, e.p)
OnlyCaches == \A e \in in.fs \ fs : e \in Before \/ Interfered(e)
NothingNew == fs \subseteq in.fs
DryDeletesNothing == (in.dry \/ pc \in {"start", "refused"}) => fs = in.fs
AllGone == (pc = "done" /\ ~in.dry) => Before \cap fs = {}
ListRight == pc \in {"delete", "done", "failed"} => listed = Caches(in.fs, Top)
LockedKept == \A e \in in.fs : (Locked(e) /\ ~Interfered(e)) => e \in fs
Shape == \A e \in fs : Len(e.p) > 1 => At(fs, Parent(e.p)) = "d"
=============================================================================
