------------------------------ MODULE Rename ------------------------------
(* Renaming a name in a tree (C21): one occurrence at a time, in the order of the tree; then back. *)
EXTENDS Trees, Json, FiniteSets
CONSTANTS N, In(_)      \* input: [tree, old, new]
VARIABLES id, in, pc, tree, first, todo
vars == <<id, in, pc, tree, first, todo>>

\* fields that hold a text that is no identifier
NotName(k) == CASE k = "Constant" -> {2}
                [] k \in {"FunctionDef", "AsyncFunctionDef"} -> {6}
                [] k \in {"Assign", "With", "AsyncWith", "arg"} -> {3}
                [] k \in {"For", "AsyncFor"} -> {5}
                [] k = "TypeIgnore" -> {1, 2}
                [] OTHER -> {}
RECURSIVE Places(_, _)
Places(t, x) == IF t.k = "id" THEN IF t.v = x THEN << <<>> >> ELSE <<>>
                ELSE Concat([i \in 1..Len(t.c) |-> IF i \in NotName(t.k) THEN <<>>
                                                   ELSE LET ps == Places(t.c[i], x) IN [j \in 1..Len(ps) |-> <<i>> \o ps[j]]])
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.c[p[1]], Tail(p))
RECURSIVE PutAt(_, _, _)
PutAt(t, p, x) == IF p = <<>> THEN x ELSE [t EXCEPT !.c = [@ EXCEPT ![p[1]] = PutAt(t.c[p[1]], Tail(p), x)]]

Init == /\ id \in 1..N /\ in = In(id) /\ tree = in.tree /\ first = Nil /\ pc = "there" /\ todo = Places(in.tree, in.old)
Step == /\ pc \in {"there", "back"} /\ todo # <<>>
        /\ tree' = PutAt(tree, Head(todo), Id(IF pc = "there" THEN in.new ELSE in.old))
        /\ todo' = Tail(todo) /\ UNCHANGED <<id, in, pc, first>>
Turn == /\ pc = "there" /\ todo = <<>>
        /\ pc' = "back" /\ first' = tree /\ todo' = Places(tree, in.new) /\ UNCHANGED <<id, in, tree>>
End == pc = "back" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<id, in, tree, first, todo>>
Next == Step \/ Turn \/ End

\* ---- properties -----------------------------------------------------------------------
\* nothing but names changes
RECURSIVE SameBut(_, _, _)
SameBut(a, b, S) == /\ a.k = b.k /\ a.p = b.p /\ Len(a.c) = Len(b.c)
                    /\ a.v = b.v \/ (a.k = "id" /\ a.v \in S /\ b.v \in S)
                    /\ \A i \in 1..Len(a.c) : SameBut(a.c[i], b.c[i], S)
OnlyNames == pc # "there" => SameBut(in.tree, tree, {in.old, in.new})
NoneLeft == (pc # "there" /\ in.new # in.old) => Places(first, in.old) = <<>>
RoundTrip == (pc = "done" /\ Places(in.tree, in.new) = <<>>) => tree = in.tree
\* as long as it is under way every step brings it one closer
Steps == [][todo # <<>> => Len(todo') = Len(todo) - 1]_vars
J == JsonDeserialize("input.json")
JIn(i) == J[i]
JN == Len(J)
Report == pc = "done" => PrintT("@" \o ToJson([id |-> id, first |-> first, tree |-> tree, n |-> Len(Places(in.tree, in.old))]))
=============================================================================
