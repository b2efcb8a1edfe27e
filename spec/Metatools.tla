----------------------------- MODULE Metatools -----------------------------
(* Expansion of code that is data (C22). A program quotes some code with macro
   invocations in it, and puts it through a sequence of operations: some at
   macro expansion time, others, after the unquotes have been filled in, on the
   value at run time. Each expansion is made by the machine of Expander, which
   runs here with an "M" frame at the bottom of its stack, that has the macro
   names in force.

   In(i) has, beside the fields of Expander:
     ops    the operations [op, names, p, to, holes]:
       all, once   expand until nothing is left, or one layer; with `names`
       step        as all, layer by layer, showing the steps
       run         the quoted code becomes a value: the unquotes, which are the leaves
                   named in `holes`, are replaced, and the positions are gone
       lift        code that makes the value is made, and run: no positions
       unlift      code that makes the value is made, and turned back into it
       fill        missing positions are filled in from `p`
       note        a macro invocation named `to` has been replaced by this code
       misuse      anything else than what an operator takes: the error in `to`     *)
EXTENDS Expander

Ops == In(tid).ops

RECURSIVE Erase(_)
Erase(x) == T(x.k, x.v, IF x.p = "" THEN "" ELSE "?", [i \in 1..Len(x.c) |-> Erase(x.c[i])])

\* Replace the holes; a list goes into the list around it.
Holes(o) == {h[1] : h \in Range(o.holes)}
ValueOf(o, v) == LET i == CHOOSE i \in 1..Len(o.holes) : o.holes[i][1] = v IN o.holes[i][2]
IsHole(x, o) == x.k = "lit" /\ x.v \in Holes(o)
RECURSIVE Fill(_, _)
Fill(x, o) == IF IsHole(x, o) THEN ValueOf(o, x.v)
              ELSE IF IsList(x) THEN L(Concat([i \in 1..Len(x.c) |->
                     LET y == Fill(x.c[i], o) IN IF IsHole(x.c[i], o) THEN AsSeq(y) ELSE <<y>>]))
              ELSE [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Fill(x.c[i], o)]]

\* What cannot be made by code: other objects than constants, containers and trees.
Liftable(t) == ~HasKind(t, "$other")

\* A quoted expression that is gone already at macro expansion time is nothing that could be quoted;
\* what happens then isn't specified.
Error(o, t) == CASE o.op = "misuse" -> o.to
                 [] o.op = "run" /\ AsSeq(t) = <<>> /\ ~IsList(In(tid).prog) -> "unspecified"
                 [] o.op \in {"lift", "unlift"} /\ ~Liftable(t) -> "TypeError"
                 [] OTHER -> ""
Value(o, t) ==
  CASE o.op = "run" -> Fill(Erase(t), o)
    [] o.op = "lift" -> Erase(t)
    [] o.op = "unlift" -> t
    [] o.op = "fill" -> FillP(t, o.p)
    [] o.op = "note" -> Strip(L(<<DummyStmt(o.to, o.p)>> \o AsSeq(t)))
    [] OTHER -> t

Frame(o) == [f |-> "M", i |-> ctl.i, bd |-> Range(o.names)]
Expands == {"all", "once", "step"}
OpStep ==
  /\ ctl.m = "op" /\ ctl.i <= Len(Ops)
  /\ LET o == Ops[ctl.i] IN
     CASE o.op \in {"all", "once"} ->
            ctl' = Ev(ctl.t) /\ rec' = (o.op = "all") /\ stk' = <<Frame(o)>>
       [] o.op = "step" ->
            /\ ctl' = [m |-> "show", w |-> "step0", t |-> ctl.t] /\ UNCHANGED rec
            /\ stk' = <<[f |-> "S", saved |-> rec, k |-> 0, det |-> FALSE], Frame(o)>>
       [] OTHER ->
            LET e == Error(o, ctl.t) IN
            /\ ctl' = IF e # "" THEN Raise(e, <<>>) ELSE [m |-> "op", i |-> ctl.i + 1, t |-> Value(o, ctl.t)]
            /\ UNCHANGED <<stk, rec>>
  /\ Quiet
BackStep ==
  /\ ctl.m \in {"ret", "out"} /\ stk # <<>> /\ Top.f = "M"
  /\ ctl' = [m |-> "op", i |-> Top.i + 1, t |-> ctl.t]
  /\ stk' = <<>> /\ rec' = TRUE
  /\ Quiet
ValEv(t) == [e |-> "val", m |-> "", s |-> "", r |-> TRUE, t |-> t, a |-> Nil, o |-> Nil, i |-> Nil]
FinStep ==
  /\ ctl.m = "op" /\ ctl.i > Len(Ops)
  /\ Emit(ValEv(ctl.t), [m |-> "done"]) /\ UNCHANGED <<tid, stk, rec>>

MInit == /\ tid \in 1..NumIn
         /\ ctl = [m |-> "op", i |-> 1, t |-> In(tid).prog]
         /\ stk = <<>> /\ rec = TRUE /\ log = <<>> /\ pos = 1
MNext == OpStep \/ BackStep \/ FinStep \/ Next
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)

-----------------------------------------------------------------------------
(* Properties *)
At(i) == Ops[i]
\* after a full expansion no invocation is left that it could have expanded
RECURSIVE Left(_, _)
Left(t, S) == CASE t.k = "Done" -> FALSE
                [] IsLeaf(t) -> FALSE
                [] t.k = "Subscript" /\ Candidate(t.c[1]).n \in S /\ (Candidate(t.c[1]).a = <<>> \/ B[Candidate(t.c[1]).n].par) -> TRUE
                [] t.k = "Name" /\ NameOf(t) \in S /\ B[NameOf(t)].nam -> TRUE
                [] OTHER -> \E i \in 1..Len(t.c) : Left(t.c[i], S)
AllExpanded == (ctl.m = "op" /\ ctl.i > 1 /\ At(ctl.i - 1).op \in {"all", "step"} /\ \A n \in DOMAIN B : B[n].beh # "id")
                 => ~Left(ctl.t, Range(At(ctl.i - 1).names))
\* only macros in force are called, and none between the operations
OnlyInForce == [][ Len(log') > Len(log) /\ log'[Len(log')].e = "call"
                    => /\ stk # <<>> /\ stk[Len(stk)].f = "M"
                       /\ log'[Len(log')].m \in Range(At(stk[Len(stk)].i).names) ]_vars
\* what doesn't expand only fills in or takes away positions
Conversions == [][ ctl.m = "op" /\ ctl'.m = "op" /\ At(ctl.i).op \in {"lift", "unlift", "fill"}
                    => Erase(ctl'.t) = Erase(ctl.t) ]_vars
\* expanding one layer only does what macros ask for: none of them is called in full mode by the machine itself
OneLayer == (ctl.m = "ret" /\ Len(stk) = 1 /\ stk[1].f = "M" /\ At(stk[1].i).op = "once") => rec = FALSE
MReport == (ctl.m = "done") => PrintT("@" \o ToJson([id |-> tid, log |-> log]))
=============================================================================
