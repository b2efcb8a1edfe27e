------------------------------ MODULE Expander ------------------------------
(* Small-step specification of the macro expander.

   State: a control `ctl` (what is happening now), a stack `stk` of suspended
   work, the expansion mode `rec` (TRUE: until no macros are left; FALSE: one
   layer), and the log of observable events.  Each macro invocation is one
   action (Invoke), each return from a macro another (Result).

   Two of the behaviours are the debug aids of the library: "step" (expand layer
   by layer, showing each) and "show" (show the bindings).

   Macros are drawn from a library of behaviours (operator Enter); the harness
   has the same library as real macro functions.  Bindings map a macro name to
   [beh, to, par, nam]: behaviour, name of the macro that the "emit" behaviours
   emit, and whether it is declared parametric / usable as a bare name.

   In(1..NumIn) are the inputs: [binds, prog, trace].  Mode "gen": the log is
   accumulated, and printed at the end for replay.  Mode "trace": each event is
   compared with the recorded one, a difference moves to "reject".          *)
EXTENDS Trees, Ctx, Json, FiniteSets, SequencesExt

CONSTANTS Mode, In(_), NumIn, Stride, Offset
VARIABLES tid, ctl, stk, rec, log, pos
vars == <<tid, ctl, stk, rec, log, pos>>

InpJson == JsonDeserialize("input.json")
JsonIn(i) == InpJson[i]
JsonNum == Len(InpJson)

B == In(tid).binds
\* the names in force: all, unless what is at the bottom of the stack says otherwise (see Metatools)
Bound == IF stk # <<>> /\ stk[Len(stk)].f = "M" THEN stk[Len(stk)].bd ELSE DOMAIN B
Trace == In(tid).trace
Cx == In(tid).cx        \* the ctx fields of the result are observed, too
Cut == In(tid).cut      \* recording was stopped at a size limit: a prefix
Has(n) == n \in Bound
Men(t) == Mentions(t, Bound)

-----------------------------------------------------------------------------
(* Observable events *)

\* The invocation as the macro sees it, abridged to what is not in the tree.
InvHead(i) == CASE i.k = "Subscript" -> i.c[1]
                [] i.k = "With" -> SetC(i, 2, L(<<>>))
                [] i.k = "Name" -> i
                [] OTHER -> i.c[DecoIdx(i.k)]
CallEv(m, s, r, t, a, o, i) ==
  [e |-> "call", m |-> m, s |-> s, r |-> r, t |-> t, a |-> a, o |-> o, i |-> InvHead(i)]
VisEv(m, r, t)   == [e |-> "vis", m |-> m, s |-> "", r |-> r, t |-> t, a |-> Nil, o |-> Nil, i |-> Nil]
EndEv(r, t, cs)  == [e |-> "end", m |-> "", s |-> "", r |-> r, t |-> t, a |-> L(cs), o |-> IF Cx THEN WithCtx(t, "Load") ELSE Nil, i |-> Nil]
CollEv(cs)       == [e |-> "coll", m |-> "", s |-> "", r |-> TRUE, t |-> L(cs), a |-> Nil, o |-> Nil, i |-> Nil]
\* What the stepping debug aid shows: s the nesting level, m the step number.
StepEv(w, lv, k, t) == [e |-> w, m |-> ToString(k), s |-> ToString(lv), r |-> TRUE, t |-> t, a |-> Nil, o |-> Nil, i |-> Nil]
ApplyEv(lv, k, n, i, t) == [e |-> "apply", m |-> ToString(k), s |-> ToString(lv), r |-> TRUE, t |-> t, a |-> Id(n), o |-> Nil, i |-> i]
BindEv(ns)       == [e |-> "bindings", m |-> "", s |-> "", r |-> TRUE, t |-> L(ns), a |-> Nil, o |-> Nil, i |-> Nil]
ErrEv(c, r, ss)  == [e |-> "err", m |-> c, s |-> "", r |-> r, t |-> L(ss), a |-> Nil, o |-> Nil, i |-> Nil]

Emit(ev, nctl) ==
  IF Mode = "gen"
  THEN log' = Append(log, ev) /\ ctl' = nctl /\ UNCHANGED pos
  ELSE /\ UNCHANGED log
       /\ IF pos > Len(Trace)
          THEN /\ UNCHANGED pos
               /\ ctl' = IF Cut THEN [m |-> "accept"]
                         ELSE [m |-> "reject", why |-> "trace ended early", want |-> ev]
          ELSE LET o == Trace[pos] IN
               IF o = ev THEN ctl' = nctl /\ pos' = pos + 1
               ELSE /\ UNCHANGED pos
                    /\ ctl' = [m |-> "reject", want |-> ev,
                          why |-> IF o.e # ev.e THEN "event"
                                  ELSE IF o.m # ev.m THEN "macro"
                                  ELSE IF o.s # ev.s THEN "syntax"
                                  ELSE IF o.r # ev.r THEN "mode"
                                  ELSE IF o.t # ev.t THEN "tree"
                                  ELSE IF o.a # ev.a THEN "args"
                                  ELSE IF o.o # ev.o THEN "optional_vars"
                                  ELSE "invocation"]

-----------------------------------------------------------------------------
(* What is a macro invocation *)

\* Candidate: <<name, args>> or <<"", <<>>>>
NoCand == [n |-> "", a |-> <<>>, bad |-> ""]
Candidate(t) ==
  CASE t.k = "Name" -> [n |-> NameOf(t), a |-> <<>>, bad |-> ""]
    [] t.k = "Subscript" /\ t.c[1].k = "Name" ->
         [n |-> NameOf(t.c[1]),
          a |-> IF t.c[2].k = "Tuple" THEN t.c[2].c[1].c ELSE <<t.c[2]>>, bad |-> ""]
    [] t.k = "Call" /\ t.c[1].k = "Name" /\ t.c[3].c = <<>> ->
         [n |-> NameOf(t.c[1]), a |-> t.c[2].c,
          bad |-> IF t.c[2].c = <<>> THEN "noargs"
                  ELSE IF \E i \in 1..Len(t.c[2].c) : t.c[2].c[i].k = "Starred"
                  THEN "starred" ELSE ""]
    [] OTHER -> NoCand

IsCall(c) == c.n # "" /\ Has(c.n) /\ (c.a = <<>> \/ B[c.n].par)

ItemCand(w) == Candidate(w.c[1])
MacroItems(t) == {i \in 1..Len(t.c[1].c) : IsCall(ItemCand(t.c[1].c[i]))}
Decos(t) == t.c[DecoIdx(t.k)].c
MacroDecos(t) == {i \in 1..Len(Decos(t)) : IsCall(Candidate(Decos(t)[i]))}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

\* The facts of one invocation.
Invk(n, s, t, a, o, tgt, dp) ==
  [n |-> n, s |-> s, t |-> t, a |-> a, o |-> o, tgt |-> tgt, dp |-> dp]

ExprInv(t) == LET c == Candidate(t.c[1]) IN
  Invk(c.n, "expr", t.c[2], L(c.a), Nil, t, t.p)
BlockInv(t) ==
  LET i == MinOf(MacroItems(t))
      it == t.c[1].c[i]
      c == ItemCand(it)
      rest == L(RemoveAt(t.c[1].c, i))
  IN Invk(c.n, "block",
          IF rest.c = <<>> THEN t.c[2] ELSE L(<<SetC(t, 1, rest)>>),
          L(c.a), it.c[2], t, t.p)
DecoInv(t) ==
  LET i == MaxOf(MacroDecos(t))
      d == Decos(t)[i]
      c == Candidate(d)
  IN Invk(c.n, "decorator", SetC(t, DecoIdx(t.k), L(RemoveAt(Decos(t), i))),
          L(c.a), Nil, t, d.p)
NameInv(t) == Invk(NameOf(t), "name", t, L(<<>>), Nil, t, t.p)

CandOf(t) == CASE t.k = "Subscript" -> Candidate(t.c[1])
               [] t.k = "With" -> ItemCand(t.c[1].c[MinOf(MacroItems(t))])
               [] OTHER -> Candidate(Decos(t)[MaxOf(MacroDecos(t))])

IsInvocation(t) ==
  \/ t.k = "Subscript" /\ IsCall(Candidate(t.c[1]))
  \/ t.k = "With" /\ MacroItems(t) # {}
  \/ t.k \in DecoKinds /\ MacroDecos(t) # {}
  \/ t.k = "Name" /\ Has(NameOf(t)) /\ B[NameOf(t)].nam

-----------------------------------------------------------------------------
(* What the collector reports: each (macro, syntax) once, in order of first
   appearance in a walk of the tree as it is. *)
RECURSIVE Coll(_)
CollAll(ts) == Concat([i \in 1..Len(ts) |-> Coll(ts[i])])
Key(n, s) == T(s, n, "", <<>>)
\* A malformed argument list is an error for the collector, as for expansion.
KeyC(c, s) == <<IF c.bad # "" THEN T("exception", "SyntaxError", "", <<>>) ELSE Key(c.n, s)>>
Coll(t) ==
  CASE IsLeaf(t) \/ t.k = "Done" -> <<>>
    [] ~Men(t) -> <<>>
    [] t.k = "Subscript" /\ IsCall(Candidate(t.c[1])) ->
         LET c == Candidate(t.c[1]) IN
         KeyC(c, "expr") \o CollAll(c.a) \o Coll(t.c[2])
    [] t.k = "With" /\ MacroItems(t) # {} ->
         LET its == t.c[1].c IN
         Concat([i \in 1..Len(its) |->
                   IF i \in MacroItems(t)
                   THEN KeyC(ItemCand(its[i]), "block") \o CollAll(ItemCand(its[i]).a)
                   ELSE <<>>])
         \o Concat([i \in 1..Len(its) |-> IF i \in MacroItems(t) THEN <<>> ELSE Coll(its[i])])
         \o Coll(t.c[2])
    [] t.k \in DecoKinds /\ MacroDecos(t) # {} ->
         LET ds == Decos(t)
             md == MacroDecos(t)
         IN Concat([i \in 1..Len(ds) |->
                   IF i \in md
                   THEN KeyC(Candidate(ds[i]), "decorator") \o CollAll(Candidate(ds[i]).a)
                   ELSE <<>>])
         \o Concat([i \in 1..Len(ds) |-> IF i \in md THEN <<>> ELSE Coll(ds[i])])
         \o Concat([i \in 1..Len(t.c) |-> IF i = DecoIdx(t.k) THEN <<>> ELSE Coll(t.c[i])])
    [] t.k = "Name" -> IF IsInvocation(t) THEN <<Key(NameOf(t), "name")>> ELSE <<>>
    [] OTHER -> CollAll(t.c)
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>>
           ELSE LET r == Uniq(SubSeq(s, 1, Len(s) - 1))
                    x == s[Len(s)]
                IN IF \E i \in 1..Len(r) : r[i] = x THEN r ELSE Append(r, x)
Collected(t) == LET u == Uniq(Coll(t))
                    bad == {i \in 1..Len(u) : u[i].k = "exception"}
                IN IF bad = {} THEN u ELSE <<u[MinOf(bad)]>>

-----------------------------------------------------------------------------
(* Library of macro behaviours *)

Visiting == {"vis", "visrec", "visonce", "onceb", "twice", "visraise", "try"}

Wrap(s, n, t) ==
  CASE s = "expr" -> TupleN(<<Const(n)>> \o AsSeq(t))
    [] s = "name" -> TupleN(<<Const(n)>>)
    [] OTHER -> L(<<ExprS(Const(n))>> \o AsSeq(t))

Emitted(s, n, t) ==        \* an invocation of macro `to` on t
  LET to == B[n].to
      head == IF B[to].par THEN Subs(Name(to), Const("arg")) ELSE Name(to)
  IN CASE s = "expr" -> Subs(head, t)
       [] s = "name" -> Subs(head, Const(n))
       [] s = "block" -> L(<<WithS(<<WithItem(head, Nil)>>, AsSeq(t))>>)
       [] OTHER -> SetC(t, DecoIdx(t.k), L(Append(Decos(t), head)))

Out(v, ok) == [v |-> v, ok |-> ok]
\* What a macro that does not visit returns.
Immediate(beh, i) ==
  LET s == i.s  n == i.n  t == i.t IN
  CASE beh = "id" -> Out(t, "ok")
    [] beh = "wrap" -> Out(Wrap(s, n, t), "ok")
    [] beh = "none" -> Out(Nil, "ok")
    [] beh = "const" -> Out(IF s \in {"expr", "name"} THEN Const(n) ELSE ExprS(Const(n)), "ok")
    [] beh = "dup" ->
         Out(CASE s = "expr" -> TupleN(<<t, t>>)
               [] s = "name" -> TupleN(<<Const(n)>>)
               [] OTHER -> L(AsSeq(t) \o AsSeq(t)), "ok")
    [] beh \in {"multi", "gen"} ->
         Out(CASE s = "expr" -> L(<<Const(n), t>>)
               [] s = "name" -> L(<<Const(n), Const("name")>>)
               [] OTHER -> L(<<ExprS(Const(n))>> \o AsSeq(t)), "ok")
    [] beh = "empty" -> Out(L(<<>>), "ok")
    [] beh = "bad" -> Out(Nil, "bad")
    [] beh = "badlist" -> Out(Nil, "bad")
    [] beh = "emit" -> Out(Emitted(s, n, t), "ok")
    [] beh = "alias" ->       \* the bare name of another macro
         Out(IF s \in {"expr", "name"} THEN Name(B[n].to) ELSE ExprS(Name(B[n].to)), "ok")
    [] beh = "args" ->
         Out(CASE s = "expr" -> TupleN(<<Const(n)>> \o i.a.c \o <<t>>)
               [] s = "name" -> TupleN(<<Const(n)>>)
               [] OTHER -> L(<<ExprS(TupleN(<<Const(n)>> \o i.a.c))>> \o AsSeq(t)), "ok")
    [] OTHER -> Out(Wrap(s, n, t), "ok")

-----------------------------------------------------------------------------
(* Actions *)

Push(f) == stk' = <<f>> \o stk
Top == Head(stk)
Pop == Tail(stk)
Ret(v) == [m |-> "ret", t |-> v]
Ev(v) == [m |-> "eval", t |-> v]
Raise(c, ss) == [m |-> "raise", why |-> c, ss |-> ss]
Quiet == UNCHANGED <<tid, log, pos>>

\* Index of the first child from i on that needs work, or Len+1.
RECURSIVE NextWork(_, _)
NextWork(t, i) == IF i > Len(t.c) THEN i
                  ELSE IF ~IsLeaf(t.c[i]) /\ Men(t.c[i]) THEN i
                  ELSE NextWork(t, i + 1)

\* Finished code, absent code and code without macro names stays as it is.
StartStep ==
  /\ ctl.m = "start"
  /\ Emit(CollEv(Collected(ctl.t)), Ev(ctl.t)) /\ UNCHANGED <<tid, stk, rec>>

SkipStep ==
  /\ ctl.m = "eval"
  /\ \/ Bound = {}
     \/ IsLeaf(ctl.t) \/ ctl.t.k = "Done"
     \/ IsNode(ctl.t) /\ ~Men(ctl.t)
  /\ ctl' = Ret(ctl.t) /\ UNCHANGED <<stk, rec>> /\ Quiet

ListStep ==      \* a list visited on its own: each element in turn
  /\ ctl.m = "eval" /\ Bound # {} /\ IsList(ctl.t)
  /\ IF ctl.t.c = <<>>
     THEN ctl' = Ret(Nil) /\ UNCHANGED stk
     ELSE /\ ctl' = Ev(ctl.t.c[1])
          /\ Push([f |-> "L", done |-> <<>>, todo |-> Tail(ctl.t.c)])
  /\ UNCHANGED rec /\ Quiet

NodeStep ==      \* not an invocation: into the children, in field order
  /\ ctl.m = "eval" /\ IsNode(ctl.t) /\ ctl.t.k # "Done"
  /\ Men(ctl.t) /\ ~IsInvocation(ctl.t)
  /\ ctl' = [m |-> "child"]
  /\ Push([f |-> "G", n |-> ctl.t, i |-> NextWork(ctl.t, 1)])
  /\ UNCHANGED rec /\ Quiet

ChildStep ==
  /\ ctl.m = "child"
  /\ IF Top.i > Len(Top.n.c)
     THEN ctl' = Ret(Top.n) /\ stk' = Pop
     ELSE LET x == Top.n.c[Top.i] IN
          IF IsList(x)
          THEN /\ ctl' = [m |-> "elem"]
               /\ Push([f |-> "E", l |-> x, i |-> NextWork(x, 1)])
          ELSE ctl' = Ev(x) /\ UNCHANGED stk
  /\ UNCHANGED rec /\ Quiet

ElemStep ==      \* a list field of a node
  /\ ctl.m = "elem"
  /\ IF Top.i > Len(Top.l.c)
     THEN ctl' = Ret(Top.l) /\ stk' = Pop
     ELSE ctl' = Ev(Top.l.c[Top.i]) /\ UNCHANGED stk
  /\ UNCHANGED rec /\ Quiet

\* The arguments of the stepping aid must be among these strings.
RECURSIVE BadArgs(_)
BadArgs(as) ==
  IF as = <<>> THEN ""
  ELSE IF Head(as).k # "Constant" THEN "TypeError"
  ELSE IF Head(as).c[1].v \notin {"s:unparse", "s:dump", "s:detailed", "s:summary"} THEN "ValueError"
  ELSE BadArgs(Tail(as))

\* A macro is invoked.
InvokeBody(i, savedrec, r) ==
  LET b == B[i.n].beh
      x == [f |-> "X", inv |-> i, saved |-> savedrec]
      beh == IF i.s = "name" /\ b \in Visiting \cup {"visargs"} THEN "wrap" ELSE b
      callev == CallEv(i.n, i.s, r, i.t, i.a, i.o, i.tgt)
  IN
  CASE beh = "raise" ->
         Emit(callev, Raise("boom:" \o i.n, <<>>)) /\ stk' = <<x>> \o stk /\ rec' = r
    [] beh = "step" /\ i.s \notin {"expr", "block"} ->
         Emit(callev, Raise("SyntaxError", <<>>)) /\ stk' = <<x>> \o stk /\ rec' = r
    [] beh = "show" /\ i.s # "name" ->
         Emit(callev, Raise("SyntaxError", <<>>)) /\ stk' = <<x>> \o stk /\ rec' = r
    [] beh = "step" /\ BadArgs(i.a.c) # "" ->
         Emit(callev, Raise(BadArgs(i.a.c), <<>>)) /\ stk' = <<x>> \o stk /\ rec' = r
    [] beh = "step" ->
         /\ Emit(callev, [m |-> "show", w |-> "step0", t |-> i.t])
         /\ stk' = <<[f |-> "S", saved |-> r, k |-> 0,
                      det |-> \E j \in 1..Len(i.a.c) : i.a.c[j].c[1].v = "s:detailed"], x>> \o stk
         /\ rec' = r
    [] beh = "show" ->
         Emit(callev, [m |-> "binds"]) /\ stk' = <<x>> \o stk /\ rec' = r
    [] beh \in Visiting \/ beh = "visargs" ->
         /\ Emit(callev, Ev(IF beh = "visargs" THEN i.a ELSE i.t))
         /\ stk' = <<[f |-> "B", beh |-> beh, n |-> i.n, saved |-> r, k |-> 1], x>> \o stk
         /\ rec' = CASE beh \in {"visrec"} -> TRUE
                     [] beh \in {"visonce", "onceb", "twice"} -> FALSE
                     [] OTHER -> r
    [] OTHER ->
         LET o == Immediate(beh, i) IN
         /\ Emit(callev, IF o.ok = "ok" THEN [m |-> "out", t |-> o.v]
                         ELSE Raise("badoutput", <<>>))
         /\ stk' = <<x>> \o stk /\ rec' = r

InvokeStep ==
  /\ ctl.m = "eval" /\ IsNode(ctl.t) /\ ctl.t.k # "Done"
  /\ IsInvocation(ctl.t)
  /\ LET t == ctl.t IN
     IF t.k # "Name" /\ CandOf(t).bad # ""
     THEN ctl' = Raise("SyntaxError", <<>>) /\ UNCHANGED <<stk, rec>> /\ Quiet
     ELSE /\ UNCHANGED tid
          /\ CASE t.k = "Subscript" -> InvokeBody(ExprInv(t), rec, rec)
               [] t.k = "With" -> InvokeBody(BlockInv(t), rec, rec)
               [] t.k = "Name" -> InvokeBody(NameInv(t), rec, FALSE)
               [] OTHER -> InvokeBody(DecoInv(t), rec, rec)

\* A visit that a macro asked for returns to that macro.
VisitedStep ==
  /\ ctl.m = "ret" /\ stk # <<>> /\ Top.f = "B"
  /\ UNCHANGED tid
  /\ LET b == Top.beh
         i == stk[2].inv
         v == IF b = "visonce" THEN DoneN(ctl.t) ELSE ctl.t
         again == b = "twice" /\ Top.k = 1
     IN /\ rec' = IF again THEN FALSE ELSE Top.saved
        /\ stk' = IF again THEN <<[Top EXCEPT !.k = 2]>> \o Pop ELSE Pop
        /\ Emit(VisEv(i.n, Top.saved, v),
             CASE b = "visraise" -> Raise("boom:" \o i.n, <<>>)
               [] again -> Ev(v)
               [] b = "visargs" ->
                    [m |-> "out", t |->
                      IF i.s = "expr" THEN TupleN(<<Const(i.n)>> \o AsSeq(v) \o <<i.t>>)
                      ELSE L(<<ExprS(TupleN(<<Const(i.n)>> \o AsSeq(v)))>> \o AsSeq(i.t))]
               [] OTHER -> [m |-> "out", t |-> Wrap(i.s, i.n, v)])

\* ---- the stepping debug aid: a macro that expands its input layer by layer
Level(k) == Cardinality({j \in 1..Len(k) : k[j].f = "S"})
ShowStep ==
  /\ ctl.m = "show"
  /\ Emit(StepEv(ctl.w, Level(stk), Top.k, ctl.t), [m |-> "stepping", t |-> ctl.t])
  /\ UNCHANGED <<tid, stk, rec>>
LayerStep ==
  /\ ctl.m = "stepping" /\ Collected(ctl.t) # <<>>
  /\ IF Collected(ctl.t)[1].k = "exception"
     THEN ctl' = Raise("SyntaxError", <<>>) /\ UNCHANGED <<stk, rec>>
     ELSE /\ ctl' = Ev(ctl.t) /\ rec' = FALSE
          /\ stk' = <<[Top EXCEPT !.k = @ + 1]>> \o Pop
  /\ Quiet
LayerDone ==
  /\ ctl.m = "ret" /\ stk # <<>> /\ Top.f = "S"
  /\ ctl' = [m |-> "show", w |-> "step", t |-> ctl.t] /\ rec' = Top.saved
  /\ UNCHANGED stk /\ Quiet
SteppedStep ==
  /\ ctl.m = "stepping" /\ Collected(ctl.t) = <<>>
  /\ Emit(StepEv("stepend", Level(stk), Top.k, Nil), [m |-> "out", t |-> ctl.t])
  /\ stk' = Pop /\ UNCHANGED <<tid, rec>>
\* in detailed mode, every macro that returns is reported to the innermost such aid
HookOf(k) == {j \in 1..Len(k) : k[j].f = "S" /\ k[j].det}
ApplyStep ==
  /\ ctl.m = "out" /\ HookOf(stk) # {}
  /\ LET h == stk[MinOf(HookOf(stk))] IN
     Emit(ApplyEv(Level(SubSeq(stk, MinOf(HookOf(stk)), Len(stk))), h.k, Top.inv.n, Top.inv.tgt, ctl.t),
          [m |-> "out2", t |-> ctl.t])
  /\ UNCHANGED <<tid, stk, rec>>
BindingsStep ==
  /\ ctl.m = "binds"
  /\ Emit(BindEv([j \in 1..Cardinality(Bound) |-> Id(SetToSortSeq(Bound, LAMBDA p, q : B[p].ix < B[q].ix)[j])]),
          [m |-> "out", t |-> Nil])
  /\ UNCHANGED <<tid, stk, rec>>

\* A macro has returned: positions are filled in, and the result is expanded
\* in turn, if that is the mode.
ResultStep ==
  /\ \/ ctl.m = "out" /\ HookOf(stk) = {}
     \/ ctl.m = "out2"
  /\ Top.f = "X"
  /\ LET i == Top.inv
         v == FillP(ctl.t, i.tgt.p)
         p == [f |-> "P", inv |-> i, saved |-> Top.saved, again |-> FALSE]
     IN IF v.k # "~" /\ rec
        THEN ctl' = Ev(v) /\ stk' = <<p>> \o Pop
        ELSE ctl' = Ret(v) /\ stk' = <<p>> \o Pop
  /\ UNCHANGED rec /\ Quiet

AfterStep ==
  /\ ctl.m = "ret" /\ stk # <<>> /\ Top.f = "P"
  /\ LET i == Top.inv
         t == ctl.t
     IN CASE i.s = "expr" ->
               ctl' = Ret(IF t.k = "~" THEN DummyExpr(i.dp) ELSE t)
               /\ stk' = Pop /\ UNCHANGED rec
          [] i.s = "name" ->
               IF Top.again THEN ctl' = Ret(IF t.k = "~" THEN DummyExpr(i.dp) ELSE t) /\ stk' = Pop /\ UNCHANGED rec
               ELSE /\ rec' = Top.saved
                    /\ IF t.k = "~" THEN ctl' = Ret(DummyExpr(i.dp)) /\ stk' = Pop
                       ELSE IF t.k = "Name" /\ NameOf(t) = i.n
                       THEN ctl' = Ret(DoneN(t)) /\ stk' = Pop
                       ELSE IF Top.saved
                       THEN ctl' = Ev(t) /\ stk' = <<[Top EXCEPT !.again = TRUE]>> \o Pop
                       ELSE ctl' = Ret(t) /\ stk' = Pop
          [] OTHER ->
               /\ ctl' = Ret(IF i.dp \in {"?", ""} THEN t
                             ELSE L(<<DummyStmt(i.n, i.dp)>> \o AsSeq(t)))
               /\ stk' = Pop /\ UNCHANGED rec
  /\ Quiet

ReturnStep ==
  /\ ctl.m = "ret" /\ stk # <<>> /\ Top.f \in {"L", "G", "E"}
  /\ LET fr == Top  v == ctl.t IN
     CASE fr.f = "L" ->
            LET d == fr.done \o Flat(v) IN
            IF fr.todo = <<>>
            THEN ctl' = Ret(IF d = <<>> THEN Nil ELSE L(d)) /\ stk' = Pop
            ELSE /\ ctl' = Ev(Head(fr.todo))
                 /\ stk' = <<[fr EXCEPT !.done = d, !.todo = Tail(fr.todo)]>> \o Pop
       [] fr.f = "G" ->
            LET n2 == SetC(fr.n, fr.i, v) IN
            /\ ctl' = [m |-> "child"]
            /\ stk' = <<[fr EXCEPT !.n = n2, !.i = NextWork(n2, fr.i + 1)]>> \o Pop
       [] fr.f = "E" ->
            LET ins == AsSeq(v)
                l2 == L(SubSeq(fr.l.c, 1, fr.i - 1) \o ins \o SubSeq(fr.l.c, fr.i + 1, Len(fr.l.c)))
            IN /\ ctl' = [m |-> "elem"]
               /\ stk' = <<[fr EXCEPT !.l = l2, !.i = NextWork(l2, fr.i + Len(ins))]>> \o Pop
  /\ UNCHANGED rec /\ Quiet

\* An error unwinds, collecting the use sites of the macros that are running.
LineOf(p) == IF p \in {"?", ""} THEN p ELSE SubSeq(p, 1, 4)
Site(i) == T(i.s, i.n, LineOf(i.tgt.p), <<>>)
UnwindStep ==
  /\ ctl.m = "raise" /\ stk # <<>>
  /\ stk' = Pop
  /\ CASE Top.f = "X" -> ctl' = Raise(ctl.why, <<Site(Top.inv)>> \o ctl.ss)
                         /\ rec' = Top.saved
       [] Top.f = "B" ->
            /\ rec' = Top.saved
            /\ IF Top.beh = "try"
               THEN ctl' = [m |-> "out", t |-> Wrap(stk[2].inv.s, Top.n,
                                IF stk[2].inv.s = "expr" THEN Const("caught")
                                ELSE ExprS(Const("caught")))]
               ELSE UNCHANGED ctl
       [] Top.f \in {"P", "S"} -> rec' = Top.saved /\ UNCHANGED ctl
       [] OTHER -> UNCHANGED <<rec, ctl>>
  /\ Quiet

EndStep ==
  /\ stk = <<>> /\ ctl.m \in {"ret", "raise"}
  /\ UNCHANGED <<tid, stk, rec>>
  /\ IF ctl.m = "ret"
     THEN Emit(EndEv(rec, Strip(ctl.t), Collected(ctl.t)), [m |-> "done"])
     ELSE Emit(ErrEv(ctl.why, rec, ctl.ss), [m |-> "done"])

\* In trace mode the whole trace must have been consumed.
CheckStep ==
  /\ ctl.m = "done" /\ Mode = "trace"
  /\ ctl' = IF pos = Len(Trace) + 1 THEN [m |-> "accept"]
            ELSE [m |-> "reject", why |-> "extra events", want |-> EndEv(rec, Nil, <<>>)]
  /\ UNCHANGED <<stk, rec>> /\ Quiet

Init == /\ tid \in {i \in 1..NumIn : i % Stride = Offset}
        /\ ctl = [m |-> "start", t |-> In(tid).prog]
        /\ stk = <<>> /\ rec = TRUE /\ log = <<>> /\ pos = 1

Next == \/ StartStep \/ SkipStep \/ ListStep \/ NodeStep \/ ChildStep \/ ElemStep
        \/ InvokeStep \/ VisitedStep \/ ResultStep \/ AfterStep
        \/ ShowStep \/ LayerStep \/ LayerDone \/ SteppedStep \/ ApplyStep \/ BindingsStep
        \/ ReturnStep \/ UnwindStep \/ EndStep \/ CheckStep

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* Properties of the specification itself *)

Running == ctl.m \notin {"done", "accept", "reject"}

\* C03, C06: when an expansion ends, well or badly, the mode is as at the start
ModeRestored == ctl.m = "done" => rec = TRUE

\* C01/C07: nothing that could still be expanded, and no marker, is left;
\* a protected (Done) form may keep invocations, and those are then ordinary code.
RECURSIVE HasInv(_)
HasInv(t) == IF t.k = "Done" THEN FALSE
             ELSE (IsNode(t) /\ IsInvocation(t)) \/ \E i \in 1..Len(t.c) : HasInv(t.c[i])
\* (A macro that hands back a bare macro name may complete an invocation around
\* it, which expansion, being outside-in, has already passed.)
Strict == \A n \in Bound : B[n].beh \notin {"id", "alias"}
Complete == (ctl.m = "ret" /\ stk = <<>> /\ Strict) => ~HasInv(ctl.t)
NoMarkers == (ctl.m = "done" /\ Mode = "gen" /\ log[Len(log)].e = "end")
                 => ~HasKind(log[Len(log)].t, "Done")

\* C06: the sites reported are those of the invocations still open, outermost first
OpenSites == LET RECURSIVE F(_)
                 F(s) == IF s = <<>> THEN <<>>
                         ELSE F(Tail(s)) \o IF Head(s).f = "X" THEN <<Site(Head(s).inv)>> ELSE <<>>
             IN F(stk)
SitesComplete == [][ (ctl'.m = "raise" /\ ctl.m = "raise")
                      => OpenSites' \o ctl'.ss = OpenSites \o ctl.ss ]_vars

\* Every run ends.
Terminates == <>(~Running)

\* Report: the run of input tid, or the verdict on its trace.
Report ==
  CASE ctl.m = "done" /\ Mode = "gen" -> PrintT("@" \o ToJson([id |-> tid, log |-> log, binds |-> B, prog |-> In(tid).prog]))
    [] ctl.m = "accept" -> PrintT("@" \o ToJson([id |-> tid, ok |-> TRUE]))
    [] ctl.m = "reject" -> PrintT("@" \o ToJson([id |-> tid, ok |-> FALSE, why |-> ctl.why, at |-> pos, want |-> ctl.want]))
    [] OTHER -> TRUE
=============================================================================
