----------------------------- MODULE ExpanderMC -----------------------------
(* Bounded-exhaustive inputs for Expander: every program of a small grammar with
   every binding of a list, per Profile.  TLC runs all of them through the
   specification, checks its properties, and prints each run for replay.     *)
EXTENDS Expander

CONSTANTS Profile, Big    \* Big: deeper grammar

\* Positions by depth, so that use sites can be told apart.
PosAt(d) == LET s == ToString(d) IN (IF d > 9 THEN "00" ELSE "000") \o s \o ":0:" \o s \o ":1"
RECURSIVE Place(_, _)
Place(t, d) == IF IsLeaf(t) THEN t
               ELSE T(t.k, t.v, IF t.p = "?" THEN PosAt(d) ELSE t.p,
                      [i \in 1..Len(t.c) |-> Place(t.c[i], IF IsList(t) THEN d ELSE d + 1)])

x == Name("x")
Num == T("Constant", "", "?", <<Lit("int:1"), Nil>>)
ListN(es) == T("List", "", "?", <<L(es)>>)
CallN(f, as) == T("Call", "", "?", <<f, L(as), L(<<>>)>>)
KwCall(f, a) == T("Call", "", "?", <<f, L(<<a>>), L(<<T("keyword", "", "?", <<Id("k"), x>>)>>)>>)
StarN(e) == T("Starred", "", "?", <<e>>)
NotN(e) == T("UnaryOp", "", "?", <<T("Not", "", "", <<>>), e>>)
Attr(e) == T("Attribute", "", "?", <<e, Id("a")>>)
AssignN(e) == T("Assign", "", "?", <<L(<<x>>), e, Nil>>)
NoArgs == T("arguments", "", "", <<L(<<>>), L(<<>>), Nil, L(<<>>), L(<<>>), Nil, L(<<>>)>>)
DefN(k, body, decos) == T(k, "", "?", <<Id("f"), NoArgs, L(body), L(decos), Nil, Nil, L(<<>>)>>)
ClassN(body, decos) == T("ClassDef", "", "?", <<Id("f"), L(<<>>), L(<<>>), L(body), L(decos), L(<<>>)>>)
IfN(e, body) == T("If", "", "?", <<e, L(body), L(<<>>)>>)
ModuleN(ss) == T("Module", "", "", <<L(ss), L(<<>>)>>)
With1(c, body) == WithS(<<WithItem(c, Nil)>>, body)
With2(c1, c2, body) == WithS(<<WithItem(c1, Nil), WithItem(c2, Nil)>>, body)
Def(body, decos) == DefN("FunctionDef", body, decos)

Bd(beh, to, par, nam) == [beh |-> beh, to |-> to, par |-> par, nam |-> nam]
Ms == {"m0", "m1"}
Heads == {Name("m0"), Name("m1"), Subs(Name("m1"), x)}

\* Expressions of depth at most d over heads H and atoms A.
RECURSIVE Ex(_, _, _)
Ex(d, H, A) ==
  IF d = 0 THEN A
  ELSE LET e == Ex(d - 1, H, A) IN
       e \cup {Subs(h, a) : h \in H, a \in e}
         \cup {ListN(<<a, b>>) : a \in e, b \in A}
         \cup {NotN(a) : a \in e}

ES(S) == {ModuleN(<<ExprS(e)>>) : e \in S}
St == ExprS(x)

BindsOf(b0, b1, p1, n) == [m0 |-> Bd(b0, "m1", FALSE, n), m1 |-> Bd(b1, "m2", p1, FALSE), m2 |-> Bd("wrap", "m2", FALSE, FALSE)]
BindsPar(b0, b1, p0) == [m0 |-> Bd(b0, "m1", p0, TRUE), m1 |-> Bd(b1, "m2", TRUE, FALSE), m2 |-> Bd("wrap", "m2", FALSE, FALSE)]

\* ---- order: nesting, multi-item statements, decorator lists
OrderBehs == {"wrap", "emit", "dup", "args"}
OrderBinds == {BindsOf(a, b, TRUE, n) : a \in OrderBehs \ {"args"}, b \in OrderBehs, n \in BOOLEAN}
  \cup {[BindsOf(a, b, TRUE, TRUE) EXCEPT !.m1.nam = TRUE, !.m2.nam = n] : a \in {"alias", "emit"}, b \in {"alias", "id", "const"}, n \in BOOLEAN}
OrderExprs == Ex(IF Big THEN 3 ELSE 2, Heads, {x, Name("m0")})
Bodies == {<<St>>, <<With1(Name("m1"), <<St>>), St>>, <<ExprS(Subs(Name("m0"), x))>>}
Items == {Name("m0"), Name("m1"), Subs(Name("m1"), Subs(Name("m0"), x)), CallN(Name("foo"), <<Subs(Name("m0"), x)>>)}
OrderStmts ==
  {ModuleN(<<With2(c1, c2, b)>>) : c1 \in Items, c2 \in Items, b \in Bodies}
  \cup {ModuleN(<<Def(b, <<c1, c2>>)>>) : c1 \in Items, c2 \in Items, b \in Bodies}
  \cup {ModuleN(<<ClassN(b, <<c1, c2>>)>>) : c1 \in Items, c2 \in Items, b \in Bodies}
  \cup {ModuleN(<<WithS(<<WithItem(c1, Nil), WithItem(c2, x), WithItem(c3, Nil)>>, <<St>>)>>) :
          c1 \in Items, c2 \in Items, c3 \in Items}
  \cup {ModuleN(<<DefN("AsyncFunctionDef", b, <<c1, c2, c3>>)>>) : c1 \in Items, c2 \in Items, c3 \in Items, b \in Bodies}

\* ---- result: every kind of return value in every kind of position
ResBehs == {"id", "wrap", "none", "const", "dup", "multi", "gen", "empty", "bad", "badlist"}
ResBinds == {BindsOf(a, b, FALSE, n) : a \in ResBehs, b \in ResBehs, n \in BOOLEAN}
ResList == {ModuleN(<<ExprS(ListN(<<Subs(Name("m0"), x), Subs(Name("m1"), x)>>))>>),
            ModuleN(<<ExprS(CallN(x, <<Subs(Name("m0"), Subs(Name("m1"), x)), x>>)), St>>),
            ModuleN(<<ExprS(ListN(<<Name("m0"), x>>))>>)}
ResStmt == {ModuleN(<<With1(Name("m0"), <<With1(Name("m1"), <<St>>)>>), St>>),
            ModuleN(<<St, With2(Name("m0"), Name("m1"), <<St>>)>>),
            ModuleN(<<Def(<<St>>, <<Name("m0"), Name("m1")>>)>>),
            ModuleN(<<IfN(x, <<ClassN(<<St>>, <<Name("m0")>>)>>), With1(x, <<With1(Name("m1"), <<St>>)>>)>>)}
ResSingle == {ModuleN(<<AssignN(NotN(Subs(Name("m0"), x)))>>), ModuleN(<<AssignN(Attr(Name("m0")))>>),
              ModuleN(<<IfN(Subs(Name("m1"), x), <<St>>)>>)}
OneBehs == {"id", "wrap", "none", "const", "dup", "bad", "badlist"}

\* ---- control: macros that expand their input, nested
CtlBehs == {"vis", "visrec", "visonce", "onceb", "twice", "wrap", "emit", "try"}
CtlBinds == {BindsOf(a, b, TRUE, n) : a \in CtlBehs, b \in CtlBehs \cup {"visargs", "raise"}, n \in BOOLEAN}
CtlExprs == Ex(2, {Name("m0"), Name("m1"), Name("m2"), Subs(Name("m1"), Subs(Name("m0"), x))}, {x, Name("m0")})
CtlStmts == {ModuleN(<<With2(c1, c2, b)>>) : c1 \in {Name("m0"), Name("m1")}, c2 \in {Name("m0"), Name("m1"), Name("m2")}, b \in Bodies}
       \cup {ModuleN(<<Def(b, <<c1, c2>>)>>) : c1 \in {Name("m0"), Name("m1")}, c2 \in {Name("m0"), Name("m1"), Name("m2")}, b \in Bodies}

\* ---- forms: every candidate form for every capability
Forms(n) == {Name(n), Subs(Name(n), x), Subs(Name(n), TupleN(<<x, Num>>)), Subs(Name(n), TupleN(<<>>)),
             CallN(Name(n), <<>>), CallN(Name(n), <<x>>), CallN(Name(n), <<x, Num>>), CallN(Name(n), <<StarN(x)>>),
             KwCall(Name(n), x), Attr(Name(n)), Subs(Attr(Name(n)), x), NotN(Name(n)),
             Subs(Subs(Name(n), x), Num), Subs(CallN(Name(n), <<>>), x), Subs(CallN(Name(n), <<x>>), x),
             Subs(CallN(Name(n), <<StarN(x)>>), x), Subs(KwCall(Name(n), x), x),
             Subs(Subs(Subs(Name(n), x), Num), x), Subs(Subs(Name(n), TupleN(<<>>)), x),
             Subs(Attr(Subs(Name(n), x)), x), CallN(Subs(Name(n), x), <<x>>),
             CallN(Name(n), <<x, StarN(x)>>), Subs(CallN(Name(n), <<Num, StarN(x)>>), x), Subs(CallN(Name(n), <<x, Num>>), x),
             Subs(Name(n), StarN(x)), Subs(Subs(Name(n), TupleN(<<Num, StarN(x)>>)), x)}
FormBinds == {[m0 |-> Bd(b, "m0", p, n), m1 |-> Bd("wrap", "m1", q, m)] :
                 b \in {"wrap", "args"}, p \in BOOLEAN, n \in BOOLEAN, q \in BOOLEAN, m \in BOOLEAN}
FormProgs ==
  {ModuleN(<<s>>) : s \in
     UNION {{ExprS(f), AssignN(f), With1(f, <<St>>), Def(<<St>>, <<f>>), ClassN(<<St>>, <<f>>),
             DefN("AsyncFunctionDef", <<St>>, <<f>>),
             ExprS(Subs(Name("m1"), f)), ExprS(Subs(f, Name("m1"))), T("AsyncWith", "", "?", <<L(<<WithItem(f, Nil)>>), L(<<St>>), Nil>>),
             T("Delete", "", "?", <<L(<<f>>)>>), With2(Name("m1"), f, <<St>>)} :
              f \in Forms("m0")}}

\* ---- faults: a failure at every point
FaultBehs == {"raise", "visraise", "try", "bad", "vis", "visonce", "wrap", "emit", "visrec"}
FaultBinds == {BindsOf(a, b, TRUE, n) : a \in FaultBehs, b \in FaultBehs \ {"emit"}, n \in BOOLEAN}
FaultExprs == Ex(2, {Name("m0"), Name("m1"), Name("m2")}, {x, Name("m0")})

\* ---- stepping: the debug aid around, inside and between macros; "m2" steps
StepBehs == {"wrap", "emit", "dup", "none", "args", "vis", "visonce", "visrec", "try"}
StepBinds == {[m0 |-> Bd(a, "m1", FALSE, n) @@ ("ix" :> 1), m1 |-> Bd(b, "m3", TRUE, FALSE) @@ ("ix" :> 2),
               m2 |-> Bd(st, "m3", TRUE, FALSE) @@ ("ix" :> 3), m3 |-> Bd("wrap", "m3", FALSE, FALSE) @@ ("ix" :> 4),
               sb |-> Bd("show", "m3", FALSE, TRUE) @@ ("ix" :> 5)] :
                 a \in StepBehs \ {"args"}, b \in StepBehs \cup {"raise"}, n \in BOOLEAN, st \in {"step"}}
Aid == {Name("m2"), Subs(Name("m2"), Const("detailed")), Subs(Name("m2"), TupleN(<<Const("unparse"), Const("detailed")>>)),
        CallN(Name("m2"), <<Const("summary")>>)}
StepInner == {x, Subs(Name("m0"), x), Subs(Name("m0"), Subs(Name("m1"), x)), ListN(<<Subs(Name("m1"), Name("m0")), Subs(Subs(Name("m1"), Subs(Name("m0"), x)), x)>>),
              Subs(Name("m1"), Subs(Name("m2"), Subs(Name("m0"), x))), Name("sb"), Subs(Name("m3"), Name("m0"))}
\* a failure while stepping, that may be caught around it, and what comes after
StepFails == {ModuleN(<<ExprS(Subs(Name(n), Subs(h, Subs(Name(k), x)))), ExprS(Subs(Name("m3"), x))>>) : n \in {"m0", "m1", "m2"}, k \in {"m0", "m1"}, h \in Aid}
StepProgs ==
  {ModuleN(<<ExprS(Subs(h, e))>>) : h \in Aid, e \in StepInner}
  \cup {ModuleN(<<ExprS(Subs(Name(n), Subs(h, e))), ExprS(Subs(Name("m2"), e))>>) : n \in {"m0", "m1"}, h \in Aid, e \in StepInner}
  \cup {ModuleN(<<WithS(<<WithItem(h, Nil)>>, <<ExprS(e), WithS(<<WithItem(Name(n), Nil)>>, <<ExprS(e)>>)>>)>>) :
            n \in {"m0", "m1", "m2"}, h \in Aid, e \in StepInner}
  \cup {ModuleN(<<WithS(<<WithItem(Name(n), Nil), WithItem(h, Nil), WithItem(Name("m3"), Nil)>>, <<ExprS(e)>>)>>) :
            n \in {"m0", "m1", "m2"}, h \in Aid, e \in StepInner}
  \cup {ModuleN(<<Def(<<WithS(<<WithItem(h, Nil)>>, <<Def(<<ExprS(e)>>, <<Name("m0"), Name("m1")>>)>>)>>, <<Name(n)>>)>>) :
            n \in {"m0", "m1", "m2"}, h \in Aid, e \in StepInner}

\* The inputs are the pairs of a binding and a program.
BindSet ==
  CASE Profile = "order" -> OrderBinds
    [] Profile = "result" -> ResBinds
    [] Profile = "single" -> {BindsOf(a, b, FALSE, n) : a \in OneBehs, b \in OneBehs, n \in BOOLEAN}
    [] Profile = "control" -> CtlBinds
    [] Profile = "forms" -> FormBinds
    [] Profile = "step" -> StepBinds
    [] Profile = "faults" -> FaultBinds
ProgSet ==
  CASE Profile = "order" -> OrderStmts \cup ES(OrderExprs)
    [] Profile = "result" -> ResList \cup ResStmt
    [] Profile = "single" -> ResSingle
    [] Profile = "control" -> CtlStmts \cup ES(CtlExprs)
    [] Profile = "forms" -> FormProgs
    [] Profile = "step" -> StepProgs \cup StepFails
    [] Profile = "faults" -> CtlStmts \cup ES(FaultExprs)
BindSeq == SetToSeq(BindSet)
ProgSeq == SetToSeq(ProgSet)
MCNum == Len(BindSeq) * Len(ProgSeq)
MCIn(i) == [binds |-> BindSeq[((i - 1) % Len(BindSeq)) + 1],
            prog |-> Place(ProgSeq[((i - 1) \div Len(BindSeq)) + 1], 1),
            trace |-> <<>>, cut |-> FALSE, cx |-> FALSE]
=============================================================================
