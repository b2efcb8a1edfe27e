--------------------------------- MODULE Ctx ---------------------------------
(* Which parts of a tree are written or deleted rather than read: the `ctx`
   field that each position requires, by the grammar of Python.  WithCtx puts
   it in the `v` of the node kinds that have one.                            *)
EXTENDS Trees

CtxKinds == {"Name", "Attribute", "Subscript", "Starred", "List", "Tuple"}

\* Index of the child that is a target, 0 if none.
TargetIdx(k) ==
  CASE k \in {"Assign", "AnnAssign", "AugAssign", "NamedExpr", "For", "AsyncFor",
              "comprehension", "Delete", "TypeAlias"} -> 1
    [] k = "withitem" -> 2
    [] OTHER -> 0

RECURSIVE WithCtx(_, _)
WithCtx(t, c) ==
  CASE IsLeaf(t) -> t
    [] IsList(t) -> [t EXCEPT !.c = [i \in 1..Len(t.c) |-> WithCtx(t.c[i], c)]]
    [] t.k \in CtxKinds ->
         LET d == IF t.k \in {"Starred", "List", "Tuple"} THEN c ELSE "Load" IN
         T(t.k, c, t.p, [i \in 1..Len(t.c) |-> WithCtx(t.c[i], d)])
    [] t.k = "UMark" -> [t EXCEPT !.c = <<WithCtx(t.c[1], c)>>]
    [] OTHER ->
         LET j == TargetIdx(t.k) IN
         [t EXCEPT !.c = [i \in 1..Len(t.c) |->
            WithCtx(t.c[i], IF i # j THEN "Load" ELSE IF t.k = "Delete" THEN "Del" ELSE "Store")]]
=============================================================================
