------------------------------ MODULE Splice ------------------------------
(* Splicing code into a template (C14): splice_expression, splice_statements, splice_dialect;
   op "inject": inject_after_futureimports of the body into a module's (tmpl).
   in: [op, body, tmpl, tag, loc, multi]
     op    "expr", "stmts" or "dialect"       tag   the name that marks the place
     body  an expression, or a list           tmpl  a tree or list
     loc   position given for the template, or ""                                  *)
EXTENDS Trees

CONSTANTS N, In(_)
VARIABLES id, in, pc, tmpl, body, pre, todo, copies, out, err
vars == <<id, in, pc, tmpl, body, pre, todo, copies, out, err>>

After(s, n) == SubSeq(s, n + 1, Len(s))
Listed(t) == IF IsList(t) THEN t ELSE L(<<t>>)
NoPre == [doc |-> <<>>, fut |-> <<>>, all |-> <<>>, tdia |-> <<>>, udia |-> <<>>, tmac |-> <<>>, umac |-> <<>>]
Init == /\ id \in 1..N /\ in = In(id)
        /\ body = (IF in.op = "expr" THEN in.body ELSE Listed(in.body))
        /\ tmpl = (IF in.op = "expr" THEN in.tmpl ELSE Listed(in.tmpl))
        /\ pre = NoPre /\ todo = <<>> /\ copies = 0 /\ out = Nil /\ err = "" /\ pc = "check"

\* ---- parts of trees -------------------------------------------------------------------
IsStr(t) == t.k = "Expr" /\ t.c[1].k = "Constant" /\ SubSeq(t.c[1].c[1].v, 1, 2) = "s:"
Text(t) == SubSeq(t.c[1].c[1].v, 3, Len(t.c[1].c[1].v))
IsFuture(t) == t.k = "ImportFrom" /\ t.c[1].v = "__future__"
IsAll(t) == t.k = "Assign" /\ Len(t.c[1].c) = 1 /\ t.c[1].c[1].k = "Name" /\ t.c[1].c[1].c[1].v = "__all__"
IsImp(t, m) == t.k = "ImportFrom" /\ t.c[2].c[1].c[1].v = m /\ t.c[2].c[1].c[2].k = "~"
IsMark(t) == LET n == IF in.op = "expr" THEN t ELSE IF t.k = "Expr" THEN t.c[1] ELSE t
             IN n.k = "Name" /\ n.c[1].v = in.tag /\ (in.op # "expr" => t.k = "Expr")
\* every position to p
RECURSIVE Over(_, _)
Over(t, p) == IF IsLeaf(t) THEN t ELSE T(t.k, t.v, IF t.p = "" THEN "" ELSE p, [i \in 1..Len(t.c) |-> Over(t.c[i], p)])
\* all imports with the magic name m, and the tree without them; a block that becomes empty gets a pass
RECURSIVE Imps(_, _)
Imps(t, m) == IF IsImp(t, m) THEN <<t>> ELSE IF IsLeaf(t) THEN <<>> ELSE Concat([i \in 1..Len(t.c) |-> Imps(t.c[i], m)])
Pass(p) == T("Pass", "", p, <<>>)
RECURSIVE Without(_, _, _)
Without(t, m, top) ==
  IF IsLeaf(t) THEN t
  ELSE IF IsList(t) THEN LET s == SelectSeq(t.c, LAMBDA x : ~IsImp(x, m))
                         IN L(IF s = <<>> /\ t.c # <<>> /\ ~top THEN <<Pass(t.c[Len(t.c)].p)>> ELSE [i \in 1..Len(s) |-> Without(s[i], m, FALSE)])
  ELSE [t EXCEPT !.c = [i \in 1..Len(t.c) |-> Without(t.c[i], m, FALSE)]]
\* the places of the marker, in the order of the text of the tree
RECURSIVE Places(_)
Places(t) == IF IsMark(t) THEN << <<>> >>
             ELSE IF IsLeaf(t) THEN <<>>
             ELSE Concat([i \in 1..Len(t.c) |-> LET ps == Places(t.c[i]) IN [j \in 1..Len(ps) |-> <<i>> \o ps[j]]])
RECURSIVE PutAt(_, _, _)
PutAt(t, path, x) == IF path = <<>> THEN x ELSE [t EXCEPT !.c = [@ EXCEPT ![path[1]] = PutAt(t.c[path[1]], Tail(path), x)]]
Pasted(n) == T("Pasted", n, "", <<body>>)

\* ---- steps ------------------------------------------------------------------------------
Exprs == {"Constant", "Name", "BinOp", "BoolOp", "UnaryOp", "Call", "Lambda", "Mk", "Tuple", "Subscript", "Attribute", "List", "Set", "IfExp", "Starred", "JoinedStr", "FormattedValue", "NamedExpr", "ListComp", "SetComp", "DictComp", "GeneratorExp", "Dict", "Compare", "Yield", "YieldFrom", "Await", "Slice"}
Check == /\ pc = "check" /\ in.op # "inject"
         /\ LET none == (IsList(in.tmpl) /\ in.tmpl.c = <<>>) \/ in.tmpl.k = "~"
                empty == in.op # "expr" /\ body.c = <<>>
            IN IF in.op = "expr" THEN
                 IF none THEN out' = body /\ pc' = "done" /\ UNCHANGED err
                 ELSE IF body.k \notin Exprs \/ (body.k = "Mk" /\ body.c[1].k \notin Exprs) THEN err' = "TypeError" /\ pc' = "done" /\ UNCHANGED out
                 ELSE IF IsLeaf(in.tmpl) THEN err' = "TypeError" /\ pc' = "done" /\ UNCHANGED out
                 ELSE pc' = "find" /\ UNCHANGED <<out, err>>
               ELSE IF empty THEN err' = "ValueError" /\ pc' = "done" /\ UNCHANGED out
               ELSE IF none THEN out' = body /\ pc' = "done" /\ UNCHANGED err
               ELSE pc' = (IF in.op = "dialect" THEN "place" ELSE "find") /\ UNCHANGED <<out, err>>
         /\ UNCHANGED <<id, in, tmpl, body, pre, todo, copies>>
\* the template's positions
Place == /\ pc = "place"
         /\ LET p == IF in.loc # "" THEN in.loc ELSE body.c[1].p
            IN tmpl' = IF p = "?" THEN tmpl ELSE Over(tmpl, p)
         /\ pc' = "docs" /\ UNCHANGED <<id, in, body, pre, todo, copies, out, err>>
DocOf(t) == IF t.c # <<>> /\ IsStr(t.c[1]) THEN <<t.c[1]>> ELSE <<>>
Sep == "\n-------------------------------------------------------------------------------\n"
Docs == /\ pc = "docs"
        /\ LET u == DocOf(body)  d == DocOf(tmpl)
               both == T("Expr", "", u[1].p, <<T("Constant", "", u[1].p, <<Str(Text(u[1]) \o Sep \o Text(d[1])), Nil>>)>>)
           IN /\ pre' = [pre EXCEPT !.doc = IF u # <<>> /\ d # <<>> THEN <<both>> ELSE u \o d]
              /\ body' = L(After(body.c, Len(u))) /\ tmpl' = L(After(tmpl.c, Len(d)))
        /\ pc' = "futures" /\ UNCHANGED <<id, in, todo, copies, out, err>>
Futs(s) == IF \E i \in 1..Len(s) : ~IsFuture(s[i]) THEN (CHOOSE i \in 1..Len(s) : ~IsFuture(s[i]) /\ \A j \in 1..i - 1 : IsFuture(s[j])) - 1 ELSE Len(s)
Futures == /\ pc = "futures"
           /\ LET u == Futs(body.c)  d == Futs(tmpl.c) IN
              /\ pre' = [pre EXCEPT !.fut = SubSeq(tmpl.c, 1, d) \o SubSeq(body.c, 1, u)]
              /\ body' = L(After(body.c, u)) /\ tmpl' = L(After(tmpl.c, d))
           /\ pc' = "alls" /\ UNCHANGED <<id, in, todo, copies, out, err>>
Alls == /\ pc = "alls"
        /\ pre' = [pre EXCEPT !.all = SelectSeq(body.c, IsAll)]
        /\ body' = L(SelectSeq(body.c, LAMBDA t : ~IsAll(t))) /\ tmpl' = L(SelectSeq(tmpl.c, LAMBDA t : ~IsAll(t)))
        /\ pc' = "dialects" /\ UNCHANGED <<id, in, todo, copies, out, err>>
Lift(m, next, which) ==
   /\ pre' = IF which = "d" THEN [pre EXCEPT !.tdia = Imps(tmpl, m), !.udia = Imps(body, m)] ELSE [pre EXCEPT !.tmac = Imps(tmpl, m), !.umac = Imps(body, m)]
   /\ body' = Without(body, m, TRUE) /\ tmpl' = Without(tmpl, m, TRUE)
   /\ pc' = next /\ UNCHANGED <<id, in, todo, copies, out, err>>
Dialects == pc = "dialects" /\ Lift("dialects", "macros", "d")
Macros == pc = "macros" /\ Lift("macros", "some", "m")
\* user code of which nothing is left is a pass
Some == /\ pc = "some"
        /\ body' = IF body.c = <<>> THEN L(<<Pass(Listed(in.body).c[1].p)>>) ELSE body
        /\ IF tmpl.c = <<>> THEN tmpl' = L(<<T("Pasted", "0", "", <<body'>>)>>) ELSE UNCHANGED tmpl
        /\ pc' = "find" /\ UNCHANGED <<id, in, pre, todo, copies, out, err>>
RECURSIVE PlacesOut(_)
PlacesOut(t) == IF t.k = "Pasted" THEN <<>> ELSE Places(t)
Find == /\ pc = "find" /\ todo' = (IF IsList(tmpl) /\ tmpl.c # <<>> /\ tmpl.c[1].k = "Pasted" THEN <<>> ELSE Places(tmpl)) /\ pc' = "paste"
        /\ UNCHANGED <<id, in, tmpl, body, pre, copies, out, err>>
Paste == /\ pc = "paste" /\ todo # <<>>
         /\ tmpl' = PutAt(tmpl, Head(todo), Pasted(ToString(copies)))
         /\ copies' = copies + 1 /\ todo' = Tail(todo)
         /\ UNCHANGED <<id, in, pc, body, pre, out, err>>
RECURSIVE Unwrap(_)
Unwrap(t) == IF t.k = "Pasted" THEN t.c[1]
             ELSE IF IsLeaf(t) THEN t
             ELSE IF IsList(t) THEN L(Concat([i \in 1..Len(t.c) |-> LET e == t.c[i] IN IF e.k = "Pasted" /\ in.op # "expr" THEN e.c[1].c ELSE <<Unwrap(e)>>]))
             ELSE [t EXCEPT !.c = [i \in 1..Len(t.c) |-> Unwrap(t.c[i])]]
Prelude == pre.doc \o pre.fut \o pre.all \o pre.tdia \o pre.udia \o pre.tmac \o pre.umac
Assemble == /\ pc = "paste" /\ todo = <<>>
            /\ out' = IF in.op = "dialect" THEN L(Prelude \o Unwrap(tmpl).c) ELSE Unwrap(tmpl)
            /\ pc' = "done" /\ UNCHANGED <<id, in, tmpl, body, pre, todo, copies, err>>
\* what is injected goes after the docstring and the future imports
Inject == /\ pc = "check" /\ in.op = "inject"
          /\ IF ~IsList(in.tmpl) \/ (~IsList(in.body) /\ in.body.k \in Exprs) THEN err' = "TypeError" /\ UNCHANGED out
             ELSE LET d == Len(DocOf(tmpl))  n == d + Futs(After(tmpl.c, d))
                  IN out' = L(SubSeq(tmpl.c, 1, n) \o body.c \o After(tmpl.c, n)) /\ UNCHANGED err
          /\ pc' = "done" /\ UNCHANGED <<id, in, tmpl, body, pre, todo, copies>>
Next == Inject \/ Check \/ Place \/ Docs \/ Futures \/ Alls \/ Dialects \/ Macros \/ Some \/ Find \/ Paste \/ Assemble

\* ---- properties ---------------------------------------------------------------------------
\* putting the markers back gives the template: nothing else of it changed
RECURSIVE Back(_)
Back(t) == IF t.k = "Pasted" THEN T("Mark", "", "", <<>>) ELSE IF IsLeaf(t) THEN t ELSE [t EXCEPT !.c = [i \in 1..Len(t.c) |-> Back(t.c[i])]]
RECURSIVE Marked(_)
Marked(t) == IF IsMark(t) THEN T("Mark", "", "", <<>>) ELSE IF IsLeaf(t) THEN t ELSE [t EXCEPT !.c = [i \in 1..Len(t.c) |-> Marked(t.c[i])]]
Finished == pc = "done" /\ err = ""
OnlyMarker == (Finished /\ in.op \notin {"dialect", "inject"} /\ out # body) => Back(tmpl) = Marked(IF in.op = "expr" THEN in.tmpl ELSE Listed(in.tmpl))
\* no marker is left where it was
RECURSIVE Left(_)
Left(t) == t.k # "Pasted" /\ (IsMark(t) \/ (~IsLeaf(t) /\ \E i \in 1..Len(t.c) : Left(t.c[i])))
NoMarkerLeft == (Finished /\ in.op # "inject") => (out = body \/ ~Left(tmpl))
\* the parts come in order, and nothing of the user code is lost
Part(t) == IF IsFuture(t) THEN 2 ELSE IF IsAll(t) THEN 3 ELSE IF IsImp(t, "dialects") THEN 4 ELSE IF IsImp(t, "macros") THEN 5 ELSE 6
Ordered == (Finished /\ in.op = "dialect" /\ pre # NoPre) =>
   LET n == Len(Prelude) d == Len(pre.doc) IN
   /\ \A i, j \in 1..n : (d < i /\ i < j) => Part(out.c[i]) <= Part(out.c[j])
   /\ d <= 1
   /\ \A i \in 1..n : i > d => Part(out.c[i]) \in 2..5
\* the user's statements are all there, once for each marker; of the template's only the export list is dropped
RECURSIVE Stmts(_)
StmtKinds == {"Assign", "Expr", "ImportFrom", "Import", "Return", "AugAssign", "Delete", "Raise", "Assert", "Global", "AnnAssign", "Break", "Continue"}
Stmts(t) == IF t.k \in StmtKinds THEN <<t>> ELSE IF IsLeaf(t) THEN <<>> ELSE Concat([i \in 1..Len(t.c) |-> Stmts(t.c[i])])
CountIn(s, Q(_)) == Len(SelectSeq(s, Q))
Conserved == (Finished /\ in.op = "dialect" /\ ~(IsList(in.tmpl) /\ in.tmpl.c = <<>>)) =>
   LET u == Listed(in.body)  d == Listed(in.tmpl)
       moved == Len(pre.fut) + Len(pre.all) + Len(pre.udia) + Len(pre.umac) + Len(pre.tdia) + Len(pre.tmac) + Len(pre.doc)
       dropped == Len(SelectSeq(After(d.c, 0), IsAll))
       n == IF tmpl.c # <<>> /\ tmpl.c[1].k = "Pasted" /\ copies = 0 THEN 1 ELSE copies
       rest == Len(Stmts(body))
   IN Len(Stmts(out)) = moved + n * rest + (Len(Stmts(d)) - dropped - copies - Len(DocOf(d)) - Futs(After(d.c, Len(DocOf(d)))) - Len(pre.tdia) - Len(pre.tmac))
\* the user's code keeps its positions
Injected == (Finished /\ in.op = "inject") =>
   \E k \in 0..Len(tmpl.c) : /\ out = L(SubSeq(tmpl.c, 1, k) \o body.c \o After(tmpl.c, k))
                              /\ \A i \in 1..k : (IsFuture(tmpl.c[i]) \/ (i = 1 /\ IsStr(tmpl.c[i])))
                              /\ (k < Len(tmpl.c) => (~IsFuture(tmpl.c[k + 1]) /\ (k = 0 => ~IsStr(tmpl.c[1]))))
SameBody == in.op = "expr" => body = in.body
=============================================================================
