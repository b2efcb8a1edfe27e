------------------------------ MODULE Modules ------------------------------
(* The table of loaded modules, and code that is compiled, run and imported.

   State: `tab`, the table of loaded modules: the module object registered under
   each name (0: none); `obj`, the module objects made so far, each with its name, file,
   package, docstring, namespace and submodule attributes; `disk`, the source file
   of each file module; `stack`, the open temporary-module contexts; `hnd`, the modules
   that calls gave to the caller.

   One operation of the history is one transition.  Operations that compile or run
   code go through expansion, which may import further modules (which may fail in
   turn), and, for multi-phase code, through its phases: a temporary module is
   registered, the code of each phase from the highest to 1 is expanded and run
   in it, the entry is restored, and the code of phase 0 is the result.
   Each of these may fail anywhere.

   Programs are records [doc, multi, body]: docstring number (0: none), whether
   they request multi-phase compilation, statements.  Statements [t, v, k, s, body]:
     set     v = k
     inc     v = v + 1
     mac     define a macro v that gives the constant k, or what variable s has now
     use     import macro s2 = macro name `m` .. from module s; v = what it gives
     self    the same, from __self__
     dbg     v = 1 if __debug__ else 2
     fail    raise an error if k = 0, or when run at phase k-1 (of multi-phase code)
     phase   with phase[k]: body                                              *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS In(_), NumIn, Stride, Offset
VARIABLES tid, pos, tab, obj, disk, stack, hnd, own, log
vars == <<tid, pos, tab, obj, disk, stack, hnd, own, log>>

Names == {"m", "pk", "pk.a", "pk.a.s", "pf", "pf.x", "pf.y", "zz"}
FileMods == {"pf.x", "pf.y"}
Parent(n) == CASE n = "pk.a" -> "pk" [] n = "pk.a.s" -> "pk.a" [] n \in FileMods -> "pf" [] n = "bad.q" -> "bad" [] OTHER -> ""
Last(n) == CASE n = "pk.a" -> "a" [] n = "pk.a.s" -> "s" [] n = "pf.x" -> "x" [] n = "pf.y" -> "y" [] OTHER -> ""
Attrs == {"a", "s", "x", "y"}
Vars == {"v", "w", "m1", "m2", "ph"}
NoNS == [x \in Vars |-> 0]
NoAttrs == [a \in Attrs |-> 0]
Auto == "?"           \* a name made up for a module without one
Obj(n, f) == [name |-> n, file |-> f, pkg |-> Parent(n), doc |-> 0, ns |-> NoNS, attrs |-> NoAttrs, fm |-> FALSE, reg |-> FALSE]

-----------------------------------------------------------------------------
(* Running expanded code in a namespace; a failure keeps what was done before.  *)
Bad(r) == [r EXCEPT !.ok = FALSE]
RECURSIVE Exec(_, _, _)
Exec(code, r, opt) ==
  IF code = <<>> \/ ~r.ok THEN r
  ELSE LET c == Head(code)  s == Tail(code)  ns == r.ns
           Go(n2) == Exec(s, [r EXCEPT !.ns = n2], opt)
       IN CASE c.t = "set" -> Go([ns EXCEPT ![c.v] = c.k])
            [] c.t = "inc" -> IF ns[c.v] = 0 THEN Bad(r) ELSE Go([ns EXCEPT ![c.v] = @ + 1])
            [] c.t = "mac" /\ c.s = "" -> Go([ns EXCEPT ![c.v] = c.k])
            [] c.t = "mac" /\ c.s # "" -> IF ns[c.s] = 0 THEN Bad(r) ELSE Go([ns EXCEPT ![c.v] = ns[c.s]])
            [] c.t = "dbg" -> Go([ns EXCEPT ![c.v] = IF opt \in {-1, 0} THEN 1 ELSE 2])
            [] c.t = "fail" -> IF c.k = 0 \/ ns["ph"] = c.k THEN Bad(r) ELSE Go(ns)
            [] OTHER -> Bad(r)

\* code of phase k: what is marked k or higher, unwrapped, in source order; for 0, everything
RECURSIVE Of(_, _)
Of(body, k) ==
  IF body = <<>> THEN <<>>
  ELSE LET c == Head(body) IN
       (IF c.t = "phase" THEN (IF c.k >= k THEN c.body ELSE <<>>)
        ELSE IF k = 0 THEN <<c>> ELSE <<>>) \o Of(Tail(body), k)
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Top(body) == Max({0} \cup {body[i].k : i \in {j \in DOMAIN body : body[j].t = "phase"}})

-----------------------------------------------------------------------------
(* S is [tab, obj, disk].  Expansion of a list of statements: uses of macros are
   replaced with what they give.  All macro-imports are done first, in order.    *)
RECURSIVE Imports(_, _, _), Subst(_, _, _), Expand(_, _, _, _), Phases(_, _, _, _, _, _), Import(_, _)

Mac(c) == IF c.k = 1 THEN "m1" ELSE "m2"
Imports(body, S, ok) ==
  IF body = <<>> \/ ~ok THEN [ok |-> ok, S |-> S]
  ELSE LET c == Head(body) IN
       IF c.t = "use"
       THEN LET r == Import(S, c.s)
            IN IF ~r.ok THEN [ok |-> FALSE, S |-> r.S]
               ELSE Imports(Tail(body), r.S, r.S.obj[r.S.tab[c.s]].ns[Mac(c)] # 0)
       ELSE Imports(Tail(body), S, ok)

\* self-imports take the macros of the module being compiled: the object `me`
Subst(body, S, me) ==
  [i \in DOMAIN body |->
     LET c == body[i] IN
     IF c.t = "use" THEN [c EXCEPT !.t = "set", !.k = S.obj[S.tab[c.s]].ns[Mac(c)]]
     ELSE IF c.t = "self" THEN [c EXCEPT !.t = "set", !.k = S.obj[me].ns[Mac(c)]]
     ELSE c]
SelfOk(body, S, me) == \A i \in DOMAIN body : body[i].t = "self" => me # 0 /\ S.obj[me].ns[Mac(body[i])] # 0
ExpandIn(body, S, me) ==
  LET r == Imports(SelectSeq(body, LAMBDA c : c.t = "use"), S, TRUE)
  IN IF r.ok /\ SelfOk(body, r.S, me) THEN [ok |-> TRUE, S |-> r.S, code |-> Subst(body, r.S, me)]
     ELSE [ok |-> FALSE, S |-> r.S, code |-> <<>>]

Reg(S, n, id) == IF n \in Names THEN [S EXCEPT !.tab[n] = id] ELSE S
PhMark(k) == [t |-> "set", v |-> "ph", k |-> k + 1, s |-> "", body |-> <<>>]

Phases(body, S, me, k, n, opt) ==
  LET code == Of(body, k)
      e == ExpandIn(IF code = <<>> /\ k > 0 THEN <<>> ELSE <<PhMark(k)>> \o code, S, me)
  IN IF ~e.ok THEN e
     ELSE IF k = 0 THEN e
     ELSE LET x == Exec(e.code, [ok |-> TRUE, ns |-> e.S.obj[me].ns], opt)
              S2 == [e.S EXCEPT !.obj[me].ns = x.ns]
          IN IF x.ok THEN Phases(body, S2, me, k - 1, n, opt) ELSE [ok |-> FALSE, S |-> S2, code |-> <<>>]

\* self: the name of the module being compiled ("": not given; Auto: the made-up name of a registered module)
Expand(prog, S, self, opt) ==
  IF ~prog.multi
  THEN ExpandIn(prog.body, S, IF self \in Names THEN S.tab[self] ELSE 0)
  ELSE IF self = "" THEN [ok |-> FALSE, S |-> S, code |-> <<>>]
  ELSE LET me == Len(S.obj) + 1
           S1 == Reg([S EXCEPT !.obj = Append(@, Obj(self, "tmp"))], self, me)
           r == Phases(prog.body, S1, me, Top(prog.body), self, opt)
       IN [r EXCEPT !.S = Reg(@, self, IF self \in Names THEN S.tab[self] ELSE 0)]

(* Importing a module by name: one that is registered is taken as it is; a file module is
   registered first, and taken out again if it fails.  S.disk[n].multi etc. is its source. *)
Import(S, n) ==
  IF S.tab[n] # 0 THEN [ok |-> TRUE, S |-> S]
  ELSE IF n \notin FileMods \/ ~S.disk[n].there THEN [ok |-> FALSE, S |-> S]
  ELSE LET id == Len(S.obj) + 1
           p == S.disk[n].prog
           S1 == Reg([S EXCEPT !.obj = Append(@, [Obj(n, "disk") EXCEPT !.fm = TRUE])], n, id)
           e == Expand(p, S1, n, -1)
           x == Exec(e.code, [ok |-> e.ok, ns |-> NoNS], -1)
           S2 == [e.S EXCEPT !.obj[id].ns = x.ns, !.obj[id].doc = p.doc]
       IN IF x.ok THEN [ok |-> TRUE, S |-> [S2 EXCEPT !.obj[S2.tab[Parent(n)]].attrs[Last(n)] = id]]
          ELSE [ok |-> FALSE, S |-> Reg(S2, n, 0)]

-----------------------------------------------------------------------------
Hist == In(tid).hist
Op == Hist[pos]
St == [tab |-> tab, obj |-> obj, disk |-> disk]
Given == SelectSeq(hnd, LAMBDA h : h # 0)
Ref(h) == IF h <= Len(Given) THEN Given[Len(Given) - h + 1] ELSE 0
OpenNames == {stack[i].n : i \in DOMAIN stack}
Touches(n) == n \in OpenNames \/ \E t \in OpenNames : Parent(t) = n \/ (Parent(t) # "" /\ Parent(Parent(t)) = n)

\* what a `run` or a `compile` gives its code as the name of the module
Target(op) == IF op.h > 0 THEN Ref(op.h) ELSE IF op.n \in Names THEN tab[op.n] ELSE 0
SelfName(op) == IF op.form = "code" /\ op.o = "run" THEN "zz"
                ELSE IF op.o = "run" /\ op.n = "" /\ op.h = 0 THEN Auto
                ELSE IF op.o = "run" /\ op.h > 0 THEN obj[Target(op)].name
                ELSE op.n
HasParent(n, t) == Parent(n) = "" \/ t[Parent(n)] # 0

\* operations that make no sense where they are, and are left out of the history
Skip(op) ==
  CASE op.o = "create" -> Touches(op.n)
    [] op.o = "enter" -> Touches(op.n)
    [] op.o = "exit" -> stack = <<>>
    [] op.o = "rm" -> Touches(op.n) \/ tab[op.n] = 0
    [] op.o = "run" -> \/ op.h > 0 /\ Ref(op.h) = 0
                       \/ op.prog.multi /\ (op.h > 0 \/ op.n \in Names) /\ Target(op) # 0 /\ ~HasParent(SelfName(op), tab)
    [] op.o \in {"compile", "expand"} -> op.prog.multi /\ op.n # "" /\ ~HasParent(op.n, tab)
    [] op.o = "reload" -> tab[op.n] = 0 \/ ~obj[tab[op.n]].fm \/ obj[tab[op.n]].name # op.n
    [] OTHER -> FALSE

NoneIds == 0
Done(out, S, h) == /\ tab' = S.tab /\ obj' = S.obj /\ disk' = S.disk /\ hnd' = Append(hnd, h)
                   /\ log' = Append(log, [out |-> out, tab |-> S.tab, given |-> h, obj |-> S.obj])
File(op) == IF op.f = "" THEN (IF op.n = "" THEN "auto" ELSE "dyn") ELSE op.f
BadName(n) == n \in {"1x", "pk..a", "int"}

CreateErr(op) == IF BadName(op.n) \/ op.f = "int" THEN "TypeError"
                 ELSE IF ~(op.n = "" \/ op.n \in Names) \/ ~HasParent(op.n, tab) THEN "ModuleNotFoundError"
                 ELSE ""
Created(op, S) ==
  LET id == Len(S.obj) + 1
      n == IF op.n = "" THEN Auto ELSE op.n
      S1 == Reg([S EXCEPT !.obj = Append(@, [Obj(n, File(op)) EXCEPT !.reg = (n = Auto)])], n, id)
  IN IF op.up /\ Parent(op.n) # "" THEN [S1 EXCEPT !.obj[S1.tab[Parent(op.n)]].attrs[Last(op.n)] = id] ELSE S1

DoCreate == /\ Op.o = "create"
            /\ IF CreateErr(Op) # "" THEN Done(CreateErr(Op), St, 0) /\ UNCHANGED <<own, stack>>
               ELSE /\ Done("ok", Created(Op, St), Len(obj) + 1)
                    /\ own' = own \cup {Op.n} /\ UNCHANGED stack

DoEnter == /\ Op.o = "enter"
           /\ IF CreateErr(Op) # "" THEN Done(CreateErr(Op), St, 0) /\ UNCHANGED <<own, stack>>
              ELSE LET up == Op.up /\ Parent(Op.n) # ""
                       p == IF up THEN tab[Parent(Op.n)] ELSE 0 IN
                   /\ Done("ok", Created(Op, St), Len(obj) + 1)
                   /\ stack' = Append(stack, [n |-> IF Op.n = "" THEN Auto ELSE Op.n, id |-> Len(obj) + 1, old |-> IF Op.n = "" THEN 0 ELSE tab[Op.n],
                                              p |-> p, oldattr |-> IF p = 0 THEN 0 ELSE obj[p].attrs[Last(Op.n)]])
                   /\ UNCHANGED own

\* the end of a temporary module, whether its body succeeded or not
DoExit == /\ Op.o = "exit"
          /\ LET t == stack[Len(stack)]
                 S1 == Reg(St, t.n, t.old)
                 S2 == IF t.p = 0 THEN S1 ELSE [S1 EXCEPT !.obj[t.p].attrs[Last(t.n)] = t.oldattr]
                 S3 == [S2 EXCEPT !.obj[t.id].reg = FALSE]
             IN Done("ok", S3, 0)
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED own

DoRm == /\ Op.o = "rm" /\ Done("ok", Reg(St, Op.n, 0), 0) /\ own' = own \ {Op.n} /\ UNCHANGED stack

DoCompile == /\ Op.o \in {"compile", "expand"}
             /\ LET e == Expand(Op.prog, St, Op.n, Op.opt)
                IN Done(IF Op.prog.multi /\ Op.n = "" THEN "ValueError" ELSE IF e.ok /\ Op.form # "bad" THEN "ok" ELSE "err",
                        IF Op.form = "bad" THEN St ELSE e.S, 0)
             /\ own' = own \cup {n \in FileMods \ OpenNames : tab'[n] # 0}
             /\ UNCHANGED stack

\* the module the code is run in: as given, or a fresh one with a made-up name
DoRun ==
  /\ Op.o = "run"
  /\ LET fresh == Op.n = "" /\ Op.h = 0
         S0 == IF fresh THEN [St EXCEPT !.obj = Append(@, [Obj(Auto, "auto") EXCEPT !.reg = TRUE])] ELSE St
         id == IF fresh THEN Len(obj) + 1 ELSE Target(Op)
         e == Expand(Op.prog, S0, SelfName(Op), Op.opt)
         x == Exec(e.code, [ok |-> TRUE, ns |-> e.S.obj[id].ns], Op.opt)
         doc == IF ~x.ok THEN -1 ELSE Op.prog.doc
     IN IF Op.n = "int" THEN Done("TypeError", St, 0)
        ELSE IF ~fresh /\ id = 0 THEN Done("ModuleNotFoundError", St, 0)
        ELSE IF Op.form = "bad" THEN Done("err", St, 0)
        ELSE IF ~e.ok THEN Done("err", IF fresh THEN [e.S EXCEPT !.obj[id].reg = FALSE] ELSE e.S, 0)
        ELSE Done(IF x.ok THEN "ok" ELSE "err", [e.S EXCEPT !.obj[id].ns = x.ns, !.obj[id].doc = doc], IF x.ok THEN id ELSE 0)
  /\ own' = own \cup {n \in FileMods \ OpenNames : tab'[n] # 0}
  /\ UNCHANGED stack

\* the source file is written first
Written == [St EXCEPT !.disk[Op.n] = [there |-> TRUE, prog |-> Op.prog]]
DoImport == /\ Op.o = "import"
            /\ LET r == Import(Written, Op.n) IN Done(IF r.ok THEN "ok" ELSE "err", r.S, IF r.ok THEN r.S.tab[Op.n] ELSE 0)
            /\ own' = own \cup {n \in FileMods \ OpenNames : tab'[n] # 0}
            /\ UNCHANGED stack

DoReload == /\ Op.o = "reload"
            /\ LET id == tab[Op.n]
                   e == Expand(Op.prog, Written, Op.n, -1)
                   x == Exec(e.code, [ok |-> e.ok, ns |-> e.S.obj[id].ns], -1)
               IN Done(IF x.ok THEN "ok" ELSE "err",
                       [e.S EXCEPT !.obj[id].ns = x.ns, !.obj[id].doc = IF ~x.ok THEN -1 ELSE IF Op.prog.doc = 0 THEN @ ELSE Op.prog.doc],
                       IF x.ok THEN id ELSE 0)
            /\ own' = own \cup {n \in FileMods \ OpenNames : tab'[n] # 0}
            /\ UNCHANGED stack

DoSkip == Done("skip", St, 0) /\ UNCHANGED <<own, stack>>

-----------------------------------------------------------------------------
Init == /\ tid \in {i \in 1..NumIn : i % Stride = Offset % Stride}
        /\ pos = 1
        /\ tab = [n \in Names |-> IF n = "pf" THEN 1 ELSE 0]
        /\ obj = <<Obj("pf", "disk")>>
        /\ disk = [n \in FileMods |-> [there |-> FALSE, prog |-> [doc |-> 0, multi |-> FALSE, body |-> <<>>]]]
        /\ stack = <<>> /\ hnd = <<>> /\ own = {"pf"} /\ log = <<>>
Next == /\ pos <= Len(Hist)
        /\ pos' = pos + 1 /\ tid' = tid
        /\ IF Skip(Op) THEN DoSkip
           ELSE DoCreate \/ DoEnter \/ DoExit \/ DoRm \/ DoCompile \/ DoRun \/ DoImport \/ DoReload
Finished == pos > Len(Hist)

Report == Finished => PrintT("@" \o ToJson([id |-> tid, hist |-> Hist, log |-> log]))

-----------------------------------------------------------------------------
(* The properties of the specification. *)
\* C11: only names that were registered on purpose, or are open temporaries, are registered
NoLeftovers == \A n \in Names : tab[n] # 0 => n \in own \cup OpenNames
\* an object is registered under its own name only, and no temporary one is ever seen in the table between operations
OwnName == \A n \in Names : tab[n] # 0 => obj[tab[n]].name = n /\ obj[tab[n]].file # "tmp"
\* what was registered stays what it was, whatever else is done, and whether it succeeds or fails
Kept == [][\A n \in Names : tab[n] # 0 /\ tab'[n] # tab[n] => Op.o \in {"create", "enter", "exit", "rm"} /\ (Op.o # "exit" => Op.n = n)]_vars
\* a failure of compiling changes no module
FailedCompileKeeps == [][Op.o \in {"compile", "expand"} /\ ~Skip(Op) => \A i \in DOMAIN obj : obj[i].ns = obj'[i].ns /\ obj[i].doc = obj'[i].doc]_vars
\* the package of a module is the parent in its name
Packages == \A i \in DOMAIN obj : obj[i].pkg = Parent(obj[i].name)
=============================================================================
