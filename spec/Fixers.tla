------------------------------- MODULE Fixers -------------------------------
(* The fixers of locations and of contexts, applied directly (C07).

   A tree is a sequence of nodes, parents before children (0: no parent), in the
   order of a walk. Each node:
     k     node class         par   index of its parent
     slot  number of the field of the parent it is in, from 1 (ctx not counted)
     has   has this class positions?
     l, el, c, ec   first and last line and column; "?" if there is none
     cx    "-": no context; else the context it has, or "none"
     obj   number of the object: a node may be in several places, if contexts are fixed with copying
   Input: the nodes, the reference [has, l, el, c, ec], and the mode: "reference", "update",
   "overwrite" for locations, "ctx" or "copy" for contexts.
   One node is fixed at a time. pos[i]: what the nodes below i get where they have nothing.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS NumIn, In(_)
VARIABLES id, in, i, out, pos, ctx
vars == <<id, in, i, out, pos, ctx>>

N == in.nodes
Len0 == Len(N)
Loc(x) == [l |-> x.l, el |-> x.el, c |-> x.c, ec |-> x.ec]
CtxKinds == {"Name", "Attribute", "Subscript", "Starred", "List", "Tuple"}
\* the field with the target
Target(k) == CASE k \in {"Assign", "AnnAssign", "AugAssign", "NamedExpr", "For", "AsyncFor", "comprehension", "Delete", "TypeAlias"} -> 1
               [] k = "withitem" -> 2
               [] OTHER -> 0

Init == /\ id \in 1..NumIn /\ in = In(id) /\ i = 1 /\ out = [j \in 1..Len(In(id).nodes) |-> Loc(In(id).nodes[j])]
        /\ pos = <<>> /\ ctx = <<>>

Locating == in.mode \in {"reference", "update", "overwrite"}
Above == IF N[i].par = 0 \/ in.mode # "update" THEN Loc(in.ref) ELSE pos[N[i].par]
FixLocation ==
  /\ i <= Len0 /\ Locating /\ in.ref.has
  /\ LET n == N[i]
         a == Above
         over == in.mode = "overwrite"
         lines == IF n.has /\ (over \/ n.l = "?") THEN a ELSE Loc(n)
         cols  == IF n.has /\ (over \/ n.c = "?") THEN a ELSE Loc(n)
         new == [l |-> lines.l, el |-> lines.el, c |-> cols.c, ec |-> cols.ec]
     IN /\ out' = [out EXCEPT ![i] = new]
        /\ pos' = Append(pos, IF n.has THEN new ELSE a)
  /\ i' = i + 1 /\ UNCHANGED <<id, in, ctx>>

\* (markers are transparent)
CtxOf(n) ==
  LET p == N[n.par] IN
  IF n.par = 0 THEN "Load"
  ELSE IF p.k \in {"Starred", "List", "Tuple", "Mark"} THEN ctx[n.par]
  ELSE IF n.slot = Target(p.k) THEN (IF p.k = "Delete" THEN "Del" ELSE "Store")
  ELSE "Load"
FixContext ==
  /\ i <= Len0 /\ ~Locating
  /\ ctx' = Append(ctx, CtxOf(N[i]))
  /\ i' = i + 1 /\ UNCHANGED <<id, in, out, pos>>
Skip == i <= Len0 /\ Locating /\ ~in.ref.has /\ i' = Len0 + 1 /\ UNCHANGED <<id, in, out, pos, ctx>>
Next == FixLocation \/ FixContext \/ Skip
Done == i > Len0

\* Every node that can have a location has one, if the reference has.
Complete == Done /\ Locating /\ in.ref.has => \A j \in 1..Len0 : N[j].has => out[j].l # "?" /\ out[j].c # "?"
\* What is there is kept, except when overwriting, where nothing is.
Kept == Locating => \A j \in 1..Len0 :
  IF in.mode = "overwrite" /\ j < i /\ in.ref.has THEN N[j].has => out[j] = Loc(in.ref)
  ELSE /\ (N[j].l # "?" => out[j].l = N[j].l /\ out[j].el = N[j].el)
       /\ (N[j].c # "?" => out[j].c = N[j].c /\ out[j].ec = N[j].ec)
RECURSIVE NearestLine(_)
NearestLine(j) == IF j = 0 THEN in.ref.l ELSE IF N[j].has /\ N[j].l # "?" THEN N[j].l ELSE NearestLine(N[j].par)
\* A missing line is that of the reference, or of the nearest node around that has one.
Filled == Done /\ in.ref.has => \A j \in 1..Len0 :
  N[j].has /\ N[j].l = "?" => CASE in.mode = "reference" -> out[j].l = in.ref.l
                                [] in.mode = "update" -> out[j].l = NearestLine(j)
                                [] OTHER -> TRUE
\* What one object has to be in several places is the same only if it is copied: some input must need that.
Conflict == \E j, k \in 1..Len0 : N[j].obj = N[k].obj /\ ctx[j] # ctx[k]
NoConflict == Done /\ in.mode = "ctx" => ~Conflict
Report == Done => PrintT("@" \o ToJson([id |-> id, out |-> out, ctx |-> [j \in 1..Len(ctx) |-> IF N[j].k \in CtxKinds THEN ctx[j] ELSE "-"], conflict |-> in.mode = "copy" /\ Conflict]))

J == JsonDeserialize("input.json")
JIn(x) == J[x]
JN == Len(J)
=============================================================================
