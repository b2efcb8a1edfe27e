------------------------------ MODULE Walker ------------------------------
(* The tree walkers (C17): the stack of states, states set for subtrees, the collected items, and the edits.
   in: [kind, walks, trees, beh]
     kind   "T" (transformer) or "V" (visitor)
     trees  trees whose nodes have a unique name each (in p)
     walks  [tree (index, or 0: what the last walk returned), reset, x]
     beh    node class -> what the user's function does there: a sequence of [o, i, x], the last one a return
       collect      collect the node's name           set x / rebind x   change / replace the current state
       with i x     a state for the part i            gwith x            a state for all children
       rec          visit the children                visit i            visit the part i only
       raise        fail
       same none new pair empty                       what is returned: the node, nothing, another, both, no nodes
     An x of 0 stands for no binding.                                                                    *)
EXTENDS Trees, Json, FiniteSets
CONSTANTS N, In(_)
VARIABLES id, in, pc, w, ctl, val, heap, stack, over, coll, log, done, fresh
vars == <<id, in, pc, w, ctl, val, heap, stack, over, coll, log, done, fresh>>

Top == ctl[Len(ctl)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
SetTop(f) == Append(Pop(ctl), f)
Cur == heap[stack[Len(stack)]]
Has(r, k) == k \in DOMAIN r
Default == << [o |-> "rec", i |-> 0, x |-> 0], [o |-> "same", i |-> 0, x |-> 0] >>
Ops(t) == IF Has(in.beh, t.k) THEN in.beh[t.k] ELSE Default
NewNode == T("Name", "", "new" \o ToString(fresh), <<Id("new")>>)
IsNew(n) == Len(n) > 3 /\ SubSeq(n, 1, 3) = "new"
Ev(e, n, x) == [e |-> e, n |-> n, x |-> x]
Frame(f, t, ops, pushed, i, j, acc) == [f |-> f, t |-> t, ops |-> ops, pushed |-> pushed, i |-> i, j |-> j, acc |-> acc]

Init == /\ id \in 1..N /\ in = In(id) /\ pc = "start" /\ w = 1 /\ ctl = <<>> /\ val = Nil
        /\ heap = <<0>> /\ stack = <<1>> /\ over = <<>> /\ coll = <<>> /\ log = <<>> /\ done = <<>> /\ fresh = 1

\* the function is called for the node t, in the state set for it if any
Enter(t, frames) ==
  LET ov == Has(over, t.p) IN
  /\ ctl' = Append(frames, Frame("node", t, Ops(t), ov, 0, 0, <<>>))
  /\ stack' = IF ov THEN Append(stack, over[t.p]) ELSE stack
  /\ over' = [n \in DOMAIN over \ {t.p} |-> over[n]]
  /\ log' = Append(log, Ev("enter", t.p, heap[stack'[Len(stack')]]))
  /\ pc' = "run"
Visit(t, frames) ==
  IF IsList(t) THEN ctl' = Append(frames, Frame("list", t, <<>>, FALSE, 0, 1, <<>>)) /\ pc' = "run" /\ UNCHANGED <<stack, over, log>>
  ELSE Enter(t, frames)

\* ---- a walk begins ------------------------------------------------------------------
Start == /\ pc = "start" /\ w <= Len(in.walks)
         /\ LET k == in.walks[w]
                t == IF k.tree = 0 THEN val ELSE in.trees[k.tree]
            IN IF k.reset
               THEN /\ heap' = Append(heap, k.x) /\ stack' = <<Len(heap')>> /\ over' = <<>> /\ coll' = <<>> /\ pc' = "go" /\ UNCHANGED <<ctl, log>>
               ELSE pc' = "go" /\ UNCHANGED <<heap, stack, over, coll, ctl, log>>
         /\ UNCHANGED <<id, in, w, val, done, fresh>>
Go == /\ pc = "go"
      /\ LET k == in.walks[w]  t == IF k.tree = 0 THEN val ELSE in.trees[k.tree]
         IN IF IsLeaf(t) THEN pc' = "over" /\ UNCHANGED <<ctl, stack, over, log>> ELSE Visit(t, <<>>)
      /\ UNCHANGED <<id, in, w, val, heap, coll, done, fresh>>

\* ---- the user's function, one operation after another ---------------------------------
Op == Head(Top.ops)
\* parts that are not a node, or a list of things not all nodes, are not for visiting
Part(t, i) == i <= Len(t.c) /\ ~IsLeaf(t.c[i])
CanVisit(t, i) == Part(t, i) /\ (IsList(t.c[i]) => \A j \in 1..Len(t.c[i].c) : ~IsLeaf(t.c[i].c[j]))
Went == [Top EXCEPT !.ops = Tail(@)]
Targets(t) == IF IsLeaf(t) THEN {} ELSE IF IsList(t) THEN {t.c[i].p : i \in {i \in 1..Len(t.c) : ~IsLeaf(t.c[i])}} ELSE {t.p}
Kids(t) == UNION {Targets(t.c[i]) : i \in 1..Len(t.c)}
SetOver(names, x) == /\ heap' = Append(heap, IF x = 0 THEN Cur ELSE x)
                     /\ over' = [n \in DOMAIN over \cup names |-> IF n \in names THEN Len(heap') ELSE over[n]]
Run == /\ pc = "run" /\ Top.f = "node"
       /\ CASE Op.o = "collect" -> coll' = Append(coll, Top.t.p) /\ ctl' = SetTop(Went) /\ UNCHANGED <<pc, val, heap, stack, over, log>>
            [] Op.o = "set" -> heap' = [heap EXCEPT ![stack[Len(stack)]] = Op.x] /\ ctl' = SetTop(Went) /\ UNCHANGED <<pc, val, stack, over, coll, log>>
            [] Op.o = "rebind" -> /\ heap' = Append(heap, Op.x) /\ stack' = Append(Pop(stack), Len(heap')) /\ ctl' = SetTop(Went)
                                  /\ UNCHANGED <<pc, val, over, coll, log>>
            [] Op.o = "with" -> /\ IF ~Part(Top.t, Op.i) THEN UNCHANGED <<heap, over>> ELSE SetOver(Targets(Top.t.c[Op.i]), Op.x)
                                /\ ctl' = SetTop(Went) /\ UNCHANGED <<pc, val, stack, coll, log>>
            [] Op.o = "gwith" -> SetOver(Kids(Top.t), Op.x) /\ ctl' = SetTop(Went) /\ UNCHANGED <<pc, val, stack, coll, log>>
            [] Op.o = "rec" -> ctl' = Append(ctl, Frame("gen", Top.t, <<>>, FALSE, 1, 1, <<>>)) /\ UNCHANGED <<pc, val, heap, stack, over, coll, log>>
            [] Op.o = "visit" -> /\ IF ~CanVisit(Top.t, Op.i) THEN ctl' = SetTop(Went) /\ UNCHANGED <<pc, stack, over, log>>
                                    ELSE Visit(Top.t.c[Op.i], SetTop([Top EXCEPT !.i = Op.i]))
                                 /\ UNCHANGED <<val, heap, coll>>
            [] Op.o = "raise" -> /\ ctl' = <<>> /\ stack' = <<stack[1]>> /\ val' = Nil /\ pc' = "over"
                                 /\ log' = Append(log, Ev("raise", Top.t.p, Cur)) /\ UNCHANGED <<heap, over, coll>>
            [] OTHER -> /\ val' = (CASE Op.o = "same" -> Top.t [] Op.o = "none" -> Nil [] Op.o = "new" -> NewNode
                                     [] Op.o = "pair" -> L(<<Top.t, NewNode>>) [] Op.o = "empty" -> L(<<>>))
                        /\ stack' = (IF Top.pushed THEN Pop(stack) ELSE stack)
                        /\ ctl' = Pop(ctl) /\ pc' = (IF Len(ctl) = 1 THEN "over" ELSE "ret")
                        /\ UNCHANGED <<heap, over, coll, log>>
       /\ fresh' = (IF Op.o \in {"new", "pair"} THEN fresh + 1 ELSE fresh)
       /\ UNCHANGED <<id, in, w, done>>
\* ---- visiting the children ----------------------------------------------------------------
Gen == /\ pc = "run" /\ Top.f = "gen"
       /\ LET t == Top.t IN
          IF Top.i > Len(t.c) THEN val' = t /\ ctl' = Pop(ctl) /\ pc' = "ret" /\ UNCHANGED <<stack, over, log>>
          ELSE LET x == t.c[Top.i] IN
            IF IsLeaf(x) THEN ctl' = SetTop([Top EXCEPT !.i = @ + 1]) /\ UNCHANGED <<pc, val, stack, over, log>>
            ELSE IF ~IsList(x) THEN Enter(x, ctl) /\ UNCHANGED val
            ELSE IF Top.j > Len(x.c)
                 THEN ctl' = SetTop([Top EXCEPT !.i = @ + 1, !.j = 1, !.acc = <<>>, !.t = IF in.kind = "T" THEN SetC(t, Top.i, L(Top.acc)) ELSE t]) /\ UNCHANGED <<pc, val, stack, over, log>>
            ELSE IF IsLeaf(x.c[Top.j]) \/ IsList(x.c[Top.j]) THEN ctl' = SetTop([Top EXCEPT !.j = @ + 1, !.acc = Append(@, x.c[Top.j])]) /\ UNCHANGED <<pc, val, stack, over, log>>
            ELSE Enter(x.c[Top.j], ctl) /\ UNCHANGED val
       /\ UNCHANGED <<id, in, w, heap, coll, done, fresh>>
ListStep == /\ pc = "run" /\ Top.f = "list"
            /\ IF Top.j > Len(Top.t.c)
               THEN /\ val' = IF in.kind = "T" THEN L(Top.acc) ELSE Top.t
                    /\ ctl' = Pop(ctl) /\ pc' = (IF Len(ctl) = 1 THEN "over" ELSE "ret") /\ UNCHANGED <<stack, over, log>>
               ELSE Enter(Top.t.c[Top.j], ctl) /\ UNCHANGED val
            /\ UNCHANGED <<id, in, w, heap, coll, done, fresh>>
\* ---- a call comes back ---------------------------------------------------------------------
Ret == /\ pc = "ret" /\ pc' = "run"
       /\ LET f == Top  t == f.t IN
          CASE f.f = "gen" -> LET x == t.c[f.i] IN
                 IF IsList(x) THEN ctl' = SetTop([f EXCEPT !.j = @ + 1, !.acc = @ \o AsSeq(val)])
                 ELSE ctl' = SetTop([f EXCEPT !.i = @ + 1, !.t = IF in.kind = "T" THEN SetC(t, f.i, val) ELSE t])
            [] f.f = "list" -> ctl' = SetTop([f EXCEPT !.j = @ + 1, !.acc = @ \o AsSeq(val)])
            [] f.f = "node" -> ctl' = SetTop([f EXCEPT !.ops = Tail(@), !.i = 0,
                                                       !.t = IF in.kind = "V" THEN t ELSE IF Head(f.ops).o = "visit" /\ f.i > 0 THEN SetC(t, f.i, val) ELSE val])
       /\ log' = IF Top.f = "node" THEN Append(log, Ev("back", Top.t.p, Cur)) ELSE log
       /\ UNCHANGED <<id, in, w, val, heap, stack, over, coll, done, fresh>>
Over == /\ pc = "over"
        /\ done' = Append(done, [val |-> IF in.kind = "T" THEN val ELSE Nil, coll |-> coll, x |-> heap[stack[1]], log |-> log])
        /\ log' = <<>> /\ w' = w + 1 /\ pc' = (IF w = Len(in.walks) THEN "end" ELSE "start")
        /\ UNCHANGED <<id, in, ctl, val, heap, stack, over, coll, fresh>>
Next == Start \/ Go \/ Run \/ Gen \/ ListStep \/ Ret \/ Over

\* ---- properties ------------------------------------------------------------------------------
\* a state is on the stack for each node being visited that has one of its own
Scoped == Len(stack) = 1 + Cardinality({i \in 1..Len(ctl) : ctl[i].f = "node" /\ ctl[i].pushed})
\* going in and out of subtrees balances; items are only ever added, until a reset
Gathered == [][pc = "start" \/ (Len(coll') >= Len(coll) /\ SubSeq(coll', 1, Len(coll)) = coll)]_vars
\* no node that is only recursed into is visited twice in a walk
Simple(t) == Has(in.beh, t) => Len(SelectSeq(in.beh[t], LAMBDA o : o.o \in {"rec", "visit"})) <= 1
Once == \A i, j \in 1..Len(log) : (i < j /\ log[i].e = "enter" /\ log[j].e = "enter" /\ \A k \in DOMAIN in.beh : Simple(k)) => (log[i].n # log[j].n \/ IsNew(log[i].n))
\* a state that was set does not reach beyond its subtree: the outermost state only changes where it is in force itself
Outer == [][(Len(stack) > 1 /\ Len(stack') > 1 /\ pc # "start") => (stack'[1] = stack[1] /\ heap'[stack[1]] = heap[stack[1]])]_vars
Report == pc = "end" => PrintT("@" \o ToJson([id |-> id, in |-> in, done |-> done]))
J == JsonDeserialize("input.json")
JIn(i) == J[i]
JN == Len(J)
=============================================================================
