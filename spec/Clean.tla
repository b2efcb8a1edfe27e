-------------------------------- MODULE Clean --------------------------------
(* What happens to expanded code before it leaves the expander: the expander's
   own markers are removed, the ctx of every node is set as its position
   requires, the registered hooks run, each on the result of the one before,
   and a marker that is still there is an error.

   State: the registered hooks, the plan being carried out, the code being
   processed, and the log of what can be observed.  A plan is a sequence of
   operations: add / rem of a hook, run of a tree that a block macro returns. *)
EXTENDS Trees, Ctx, Json, SequencesExt

CONSTANTS Plan(_), NumPlans, Stride, Offset
VARIABLES id, at, hooks, stage, code, todo, log
vars == <<id, at, hooks, stage, code, todo, log>>

Op == Plan(id)[at]
UsePos == "0002:0:3:8"          \* the position of the macro invocation

\* The library of hooks.
HookFn(h, t) ==
  CASE h \in {"a", "b"} -> SetC(t, 1, L(Append(t.c[1].c, ExprS(Const(h)))))
    [] h = "w" -> SetC(t, 1, L(<<ExprS(Const(h))>> \o t.c[1].c))
    [] h = "d" -> StripKind(t, "UMark")
    [] h = "u" -> SetC(t, 1, L(Append(t.c[1].c, T("UMark", "", "", <<ExprS(Const(h))>>))))

Event(e, h, t) == [e |-> e, h |-> h, t |-> t]
Ops == stage = "idle" /\ at <= Len(Plan(id))

AddStep ==
  /\ Ops /\ Op.op = "add"
  /\ hooks' = IF \E i \in 1..Len(hooks) : hooks[i] = Op.h THEN hooks ELSE Append(hooks, Op.h)
  /\ at' = at + 1 /\ UNCHANGED <<id, stage, code, todo, log>>
RemStep ==
  /\ Ops /\ Op.op = "rem"
  /\ hooks' = SelectSeq(hooks, LAMBDA h : h # Op.h)
  /\ at' = at + 1 /\ UNCHANGED <<id, stage, code, todo, log>>
RunStep ==       \* the macro has returned: its missing positions are filled in
  /\ Ops /\ Op.op = "run"
  /\ code' = T("Module", "", "", <<L(<<DummyStmt("put", UsePos)>> \o FillP(L(Op.t), UsePos).c), L(<<>>)>>)
  /\ stage' = "strip" /\ UNCHANGED <<id, at, hooks, todo, log>>
StripStep ==
  /\ stage = "strip" /\ code' = Strip(code) /\ stage' = "ctx"
  /\ UNCHANGED <<id, at, hooks, todo, log>>
CtxStep ==
  /\ stage = "ctx" /\ code' = WithCtx(code, "Load") /\ stage' = "hooks" /\ todo' = hooks
  /\ UNCHANGED <<id, at, hooks, log>>
HookStep ==
  /\ stage = "hooks" /\ todo # <<>>
  /\ code' = HookFn(Head(todo), code) /\ todo' = Tail(todo)
  /\ log' = Append(log, Event("hook", Head(todo), code))
  /\ UNCHANGED <<id, at, hooks, stage>>
LeaveStep ==
  /\ stage = "hooks" /\ todo = <<>>
  /\ log' = Append(log, IF HasKind(code, "UMark") THEN Event("err", "markers", Nil) ELSE Event("out", "", code))
  /\ stage' = "idle" /\ at' = at + 1 /\ code' = Nil
  /\ UNCHANGED <<id, hooks, todo>>

Init == /\ id \in {i \in 1..NumPlans : i % Stride = Offset}
        /\ at = 1 /\ hooks = <<>> /\ stage = "idle" /\ code = Nil /\ todo = <<>> /\ log = <<>>
Next == AddStep \/ RemStep \/ RunStep \/ StripStep \/ CtxStep \/ HookStep \/ LeaveStep
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
NoMarkersOut == \A i \in 1..Len(log) : log[i].e = "out" =>
                   ~HasKind(log[i].t, "Done") /\ ~HasKind(log[i].t, "UMark")
EachHookOnce == \A i, j \in 1..Len(hooks) : hooks[i] = hooks[j] => i = j
Positioned == (stage = "hooks" /\ todo = hooks) =>
                LET RECURSIVE P(_)
                    P(t) == t.p # "?" /\ \A i \in 1..Len(t.c) : P(t.c[i])
                IN P(code)

Report == (stage = "idle" /\ at > Len(Plan(id))) =>
             PrintT("@" \o ToJson([id |-> id, plan |-> Plan(id), log |-> log]))

-----------------------------------------------------------------------------
(* Bounded inputs *)
N(tag) == T("Name", tag, "?", <<Id("x")>>)
Tags == {"", "c:Store", "c:Del", "c:none", "#1"}
AttrT(e, tag) == T("Attribute", tag, "?", <<e, Id("a")>>)
SubsT(a, b, tag) == T("Subscript", tag, "?", <<a, b>>)
TupT(es, tag) == T("Tuple", tag, "?", <<L(es)>>)
ListT(es, tag) == T("List", tag, "?", <<L(es)>>)
StarT(e, tag) == T("Starred", tag, "?", <<e>>)
Walrus(n, e) == T("NamedExpr", "", "?", <<n, e>>)
CallT(f, a) == T("Call", "", "?", <<f, L(<<a>>), L(<<>>)>>)
Comp(e, n, it, c) == T("ListComp", "", "?", <<e, L(<<T("comprehension", "", "", <<n, it, L(<<c>>), Lit("int:0")>>)>>)>>)
UM(t) == T("UMark", "", "", <<t>>)
Names == {N(t) : t \in Tags}
SharedTup == TupT(<<N("#1"), StarT(N("#1"), "#3")>>, "#2")
SharedSub == SubsT(N("#1"), N("#1"), "#4")
Targets == Names \cup {AttrT(N("#1"), ""), AttrT(N("c:none"), "c:Del"), SharedSub, SharedTup,
                       SubsT(N("c:Store"), Walrus(N(""), N("#1")), "c:none"),
                       TupT(<<ListT(<<N("#1"), StarT(N(""), "")>>, ""), AttrT(N("c:Store"), "#5")>>, "c:none"),
                       SubsT(N(""), TupT(<<N("c:Del"), N("#1")>>, "c:Store"), "c:Store")}
Values == {N("#1"), N("c:Store"), SharedTup, SharedSub, DoneN(N("#1")), UM(N("")), Walrus(N("#1"), N("#1")),
           Comp(N("#1"), N("#1"), N("c:none"), N("#1")), Comp(SharedTup, SharedTup, N(""), SharedTup),
           CallT(AttrT(N("c:none"), "#5"), AttrT(N("c:Store"), "#5"))}
S1(k, a, rest) == T(k, "", "?", <<a>> \o rest)
Stmts(t, v) ==
  {S1("Assign", L(<<t>>), <<v, Nil>>), S1("Assign", L(<<t, t>>), <<v, Nil>>),
   S1("AugAssign", t, <<T("Add", "", "", <<>>), v>>),
   S1("AnnAssign", t, <<v, v, Lit("int:0")>>), S1("AnnAssign", t, <<v, Nil, Lit("int:0")>>),
   S1("For", t, <<v, L(<<ExprS(v)>>), L(<<>>), Nil>>),
   S1("AsyncFor", t, <<v, L(<<ExprS(t)>>), L(<<>>), Nil>>),
   S1("Delete", L(<<t, t>>), <<>>),
   S1("With", L(<<WithItem(v, t), WithItem(t, Nil)>>), <<L(<<ExprS(t)>>), Nil>>),
   ExprS(T("GeneratorExp", "", "?", <<v, L(<<T("comprehension", "", "", <<t, v, L(<<t>>), Lit("int:0")>>)>>)>>)),
   S1("TypeAlias", N("#1"), <<L(<<>>), v>>),
   DoneN(S1("Assign", L(<<DoneN(t)>>), <<v, Nil>>)),
   UM(S1("Return", v, <<>>))}
Trees1 == UNION {Stmts(t, v) : t \in Targets, v \in Values}
Add(h) == [op |-> "add", h |-> h]
Rem(h) == [op |-> "rem", h |-> h]
\* Plans around a tree; "run" places are filled with it.
R == [op |-> "run", h |-> ""]
PlanShapes ==
  LET H == {"a", "b", "d", "w", "u"} IN
  {<<R>>, <<Add("d"), R>>}
  \cup {<<Add(g), Add(h), R>> : g \in H, h \in H}
  \cup {<<Add(g), Add(h), Add(g), R, Rem(g), R>> : g \in H, h \in {"a", "d", "w"}}
  \cup {<<Add(g), Rem(h), Add(h), Add(g), R, Add("a"), R>> : g \in H, h \in {"b", "d"}}
  \cup {<<Add("d"), Add(g), Add(h), Rem("d"), Add("d"), R>> : g \in {"a", "b", "w", "u"}, h \in {"a", "b", "w"}}
PSeq == SetToSeq(PlanShapes)
TSeq == SetToSeq(Trees1)
MCNum == Len(PSeq) * Len(TSeq)
\* Every tree is paired with some plans, every plan with some trees; all pairs at stride 1.
MCPlan(i) ==
  LET sh == PSeq[((i - 1) % Len(PSeq)) + 1]
      t == TSeq[((i - 1) \div Len(PSeq)) + 1]
  IN [j \in 1..Len(sh) |-> [op |-> sh[j].op, h |-> sh[j].h,
        t |-> IF sh[j].op = "run" THEN <<t, ExprS(N("#1"))>> ELSE <<>>]]
=============================================================================
