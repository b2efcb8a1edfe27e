------------------------------- MODULE Trees -------------------------------
(* Abstract syntax trees, shared by all tree-shaped specifications.

   A tree is a record [k, v, p, c]:
     k  node class name; "[]" a list field; "~" an absent optional;
        "id" an identifier; "lit" a primitive value
     v  text of an "id" or "lit"
     p  source position "line:col:endline:endcol"; "?" if the node class has
        positions but this node has none (yet); "" if it has no positions
     c  children, in the order of the fields of the node class
   The `ctx` fields are not represented here (see Ctx.tla).              *)
EXTENDS Naturals, Sequences, TLC

T(k, v, p, c) == [k |-> k, v |-> v, p |-> p, c |-> c]
Nil      == T("~", "", "", <<>>)
L(c)     == T("[]", "", "", c)
Id(s)    == T("id", s, "", <<>>)
Lit(s)   == T("lit", s, "", <<>>)
Str(s)   == Lit("s:" \o s)

\* Constructors for the nodes that macros and the expander make; no position.
ConstP(s, p) == T("Constant", "", p, <<Str(s), Nil>>)
Const(s)     == ConstP(s, "?")
NameP(x, p)  == T("Name", "", p, <<Id(x)>>)
Name(x)      == NameP(x, "?")
TupleN(es)   == T("Tuple", "", "?", <<L(es)>>)
SubsP(a, b, p) == T("Subscript", "", p, <<a, b>>)
Subs(a, b)   == SubsP(a, b, "?")
ExprS(e)     == T("Expr", "", "?", <<e>>)
WithItem(e, v) == T("withitem", "", "", <<e, v>>)
WithS(items, body) == T("With", "", "?", <<L(items), L(body), Nil>>)
DoneN(t)     == T("Done", "", "", <<t>>)

IsLeaf(t) == t.k \in {"~", "id", "lit"}
IsList(t) == t.k = "[]"
IsNode(t) == ~IsLeaf(t) /\ ~IsList(t)
NameOf(t) == t.c[1].v                       \* of a Name node

DecoKinds == {"FunctionDef", "AsyncFunctionDef", "ClassDef"}
DecoIdx(k) == IF k = "ClassDef" THEN 5 ELSE 4

AsSeq(t) == IF t.k = "~" THEN <<>> ELSE IF IsList(t) THEN t.c ELSE <<t>>

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
SetC(t, i, x)  == [t EXCEPT !.c = [@ EXCEPT ![i] = x]]

\* Concatenate a sequence of sequences.
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
MapSeq(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

\* Deep flattening of what a visit of a list yields.
RECURSIVE Flat(_)
Flat(t) == IF t.k = "~" THEN <<>>
           ELSE IF IsList(t) THEN Concat([i \in 1..Len(t.c) |-> Flat(t.c[i])])
           ELSE <<t>>

\* Does any Name node in t (outside finished code) have an id in S?
RECURSIVE Mentions(_, _)
Mentions(t, S) ==
  CASE t.k = "Name" -> t.c[1].v \in S
    [] t.k = "Done" -> FALSE
    [] IsLeaf(t)    -> FALSE
    [] OTHER        -> \E i \in 1..Len(t.c) : Mentions(t.c[i], S)

\* Fill in missing positions.
RECURSIVE FillP(_, _)
FillP(t, p) == IF p \in {"?", ""} \/ IsLeaf(t) THEN t
               ELSE T(t.k, t.v, IF t.p = "?" THEN p ELSE t.p,
                      [i \in 1..Len(t.c) |-> FillP(t.c[i], p)])

\* Remove the markers of kind k, putting their contents in their place.
RECURSIVE StripKind(_, _)
StripKind(t, k) ==
  CASE t.k = k -> StripKind(t.c[1], k)
    [] IsLeaf(t) -> t
    [] IsList(t) -> L(Concat([i \in 1..Len(t.c) |->
                        LET e == t.c[i] IN
                        IF IsLeaf(e) THEN <<e>> ELSE AsSeq(StripKind(e, k))]))
    [] OTHER -> [t EXCEPT !.c = [i \in 1..Len(t.c) |-> StripKind(t.c[i], k)]]
\* Remove the expander's own markers, as at the end of expansion.
Strip(t) == StripKind(t, "Done")

\* The coverage dummies.
CovLit(n, p) == T("Constant", "", p, <<Lit("cov:" \o n), Nil>>)
DummyStmt(n, p) == DoneN(T("Assign", "", p, <<L(<<NameP("_mcpyrate_coverage", p)>>), CovLit(n, p), Nil>>))
DummyExpr(p) ==
  DoneN(T("Call", "", p,
     <<T("Lambda", "", p,
         <<T("arguments", "", "", <<L(<<>>), L(<<>>), Nil, L(<<>>), L(<<>>), Nil, L(<<>>)>>),
           T("Constant", "", p, <<Lit("None"), Nil>>)>>),
       L(<<>>), L(<<>>)>>))


RECURSIVE HasKind(_, _)
HasKind(t, k) == t.k = k \/ \E i \in 1..Len(t.c) : HasKind(t.c[i], k)

RECURSIVE Size(_)
Size(t) == LET RECURSIVE Sum(_)
               Sum(s) == IF s = <<>> THEN 0 ELSE Size(Head(s)) + Sum(Tail(s))
           IN 1 + Sum(t.c)
=============================================================================
