-------------------------------- MODULE Repl --------------------------------
(* Interactive sessions (C25): consoles in one process, with macro modules that
   are edited, break and are repaired while the sessions go on.

   In(i) has
     front   "console" or "ipython"
     n       the number of consoles
     mods    module name -> content: [st, fs]; fs: functions [n, id, nm, b, to, v]
             st: "ok"; "gone"; "syntax"; "start", "end": an error is raised where the
             module starts, or after it has defined everything
     evs     what happens, in order:
             [k |-> "edit", m, c]
             [k |-> "query", w, q, n]      q: "macros", "doc", "src", "dump" (IPython; of expression x)
             [k |-> "in", w, st, ss]       an input to console w, of statements ss;
                                           st = "syntax": it cannot be parsed

   A statement is [s, ...]: set n x; show x; def f d (d: decorated with @macro);
   bind x: macro(x); mimp m a: macro-import of the names a from m; imp m; from m n r;
   del n; fail: an error at run time.
   An expression is [k, ...]: int v; str v; var n; use n x: n[x]; pair x y.
   A macro's behaviour b is: tag: (its id, the expanded argument); name: as tag, but
   also where it is named only; raise; bad: returns no tree; badtree: returns a tree
   which cannot be compiled; emit: an invocation of `to`.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS In(_), NumIn
VARIABLES tid, i, disk, loaded, env, macs, pend, log
vars == <<tid, i, disk, loaded, env, macs, pend, log>>

S == In(tid)
IPython == S.front = "ipython"
Cons == 1..S.n
Empty == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* ---- values ----------------------------------------------------------------------
IntV(v) == [k |-> "int", v |-> v]
StrV(v) == [k |-> "str", v |-> v]
ModV(m) == [k |-> "mod", m |-> m]
FnV(f) == IF f.b = "const" THEN IntV(f.v) ELSE [k |-> "fn", id |-> f.id, nm |-> f.nm, b |-> f.b, to |-> f.to]
Callable(v) == v.k = "fn"

\* ---- modules ---------------------------------------------------------------------
RECURSIVE Merge(_, _)
Merge(d, fs) == IF fs = <<>> THEN d ELSE Merge(Put(d, fs[1].n, FnV(fs[1])), Tail(fs))
Error(c) == CASE c.st = "gone" -> "ModuleNotFoundError"
              [] c.st = "syntax" -> "SyntaxError"
              [] c.st \in {"start", "end"} -> "ZeroDivisionError"
              [] OTHER -> ""
\* the module is loaded if it isn't; a module that fails isn't there afterwards
Fresh(m, L) ==
  IF m \in DOMAIN L THEN [e |-> "", l |-> L]
  ELSE [e |-> Error(disk[m]), l |-> IF disk[m].st = "ok" THEN Put(L, m, Merge(Empty, disk[m].fs)) ELSE L]
\* what it defines is renewed, what it doesn't define any more stays; a module that fails stays as far as it came
Reload(m, L) ==
  [e |-> Error(disk[m]), l |-> IF disk[m].st \in {"ok", "end"} THEN Put(L, m, Merge(L[m], disk[m].fs)) ELSE L]

\* ---- macro-imports ---------------------------------------------------------------
RECURSIVE Names(_, _, _)
Names(a, d, b) ==
  IF a = <<>> THEN [e |-> "", b |-> b]
  ELSE IF a[1].n \notin DOMAIN d \/ ~Callable(d[a[1].n]) THEN [e |-> "ImportError", b |-> b]
  ELSE Names(Tail(a), d, Put(b, a[1].r, d[a[1].n]))
\* all of an input, or none
RECURSIVE Imports(_, _, _, _)
Imports(ss, L, E, b) ==
  IF ss = <<>> THEN [e |-> "", l |-> L, b |-> b]
  ELSE IF ss[1].s # "mimp" THEN Imports(Tail(ss), L, E, b)
  ELSE IF ss[1].m = "__self__" THEN
    LET r == Names(ss[1].a, E, b) IN
    IF r.e # "" THEN [e |-> r.e, l |-> L, b |-> Empty] ELSE Imports(Tail(ss), L, E, r.b)
  ELSE
    LET f == Fresh(ss[1].m, L)
        g == IF f.e # "" THEN f ELSE Reload(ss[1].m, f.l)
        r == IF g.e # "" THEN [e |-> g.e, b |-> b] ELSE Names(ss[1].a, g.l[ss[1].m], b)
    IN IF r.e # "" THEN [e |-> r.e, l |-> g.l, b |-> Empty] ELSE Imports(Tail(ss), g.l, E, r.b)

\* ---- expansion -------------------------------------------------------------------
\* [e, x, c]: an error, the expansion, and whether it cannot be compiled
RECURSIVE Exp(_, _, _)
Exp(x, M, fuel) ==
  LET ok(y) == [e |-> "", x |-> y, c |-> FALSE] IN
  CASE x.k = "var" /\ x.n \in DOMAIN M /\ M[x.n].b = "name" -> ok([k |-> "str", v |-> M[x.n].id])
    [] x.k = "use" /\ x.n \in DOMAIN M ->
         LET f == M[x.n] IN
         CASE f.b \in {"tag", "name"} ->
                LET r == Exp(x.x, M, fuel) IN [r EXCEPT !.x = [k |-> "tagged", v |-> f.id, x |-> r.x]]
           [] f.b \in {"raise", "bad"} -> [e |-> "MacroApplicationError", x |-> x, c |-> FALSE]
           [] f.b = "badtree" -> [Exp(x.x, M, fuel) EXCEPT !.c = TRUE]
           [] f.b = "emit" -> IF fuel = 0 THEN [e |-> "unspecified", x |-> x, c |-> FALSE]
                              ELSE Exp([x EXCEPT !.n = f.to], M, fuel - 1)
           [] OTHER -> [e |-> "unspecified", x |-> x, c |-> FALSE]
    [] x.k = "use" -> LET r == Exp(x.x, M, fuel) IN [r EXCEPT !.x = [k |-> "sub", n |-> x.n, x |-> r.x]]
    [] x.k = "pair" ->
         LET r == Exp(x.x, M, fuel)
             q == Exp(x.y, M, fuel)
         IN [e |-> IF r.e # "" THEN r.e ELSE q.e, x |-> [k |-> "pair", x |-> r.x, y |-> q.x], c |-> r.c \/ q.c]
    [] OTHER -> ok(x)
RECURSIVE ExpAll(_, _)
ExpAll(ss, M) ==
  IF ss = <<>> THEN [e |-> "", ss |-> <<>>, c |-> FALSE]
  ELSE LET r == IF ss[1].s \in {"set", "show", "bind"} THEN Exp(ss[1].x, M, 6) ELSE [e |-> "", x |-> 0, c |-> FALSE]
           q == ExpAll(Tail(ss), M)
           s == IF ss[1].s \in {"set", "show", "bind"} THEN [ss[1] EXCEPT !.x = r.x] ELSE ss[1]
       IN [e |-> IF r.e # "" THEN r.e ELSE q.e, ss |-> <<s>> \o q.ss, c |-> r.c \/ q.c]

\* ---- running ---------------------------------------------------------------------
RECURSIVE Eval(_, _)
Eval(x, E) ==
  LET ok(v) == [e |-> "", v |-> v] IN
  CASE x.k = "int" -> ok(IntV(x.v))
    [] x.k = "str" -> ok(StrV(x.v))
    [] x.k = "var" -> IF x.n \in DOMAIN E THEN ok(E[x.n]) ELSE [e |-> "NameError", v |-> 0]
    [] x.k = "tagged" -> LET r == Eval(x.x, E) IN IF r.e # "" THEN r ELSE ok([k |-> "pair", x |-> StrV(x.v), y |-> r.v])
    [] x.k = "sub" ->
         IF x.n \notin DOMAIN E THEN [e |-> "NameError", v |-> 0]
         ELSE LET r == Eval(x.x, E) IN IF r.e # "" THEN r ELSE [e |-> IF E[x.n].k \in {"str", "pair"} THEN "unspecified" ELSE "TypeError", v |-> 0]
    [] x.k = "pair" ->
         LET r == Eval(x.x, E)
             q == Eval(x.y, E)
         IN IF r.e # "" THEN r ELSE IF q.e # "" THEN q ELSE ok([k |-> "pair", x |-> r.v, y |-> q.v])

Run1(s, st) ==
  LET fail(e) == [st EXCEPT !.e = e] IN
  CASE s.s = "set" -> LET r == Eval(s.x, st.env) IN IF r.e # "" THEN fail(r.e) ELSE [st EXCEPT !.env = Put(@, s.n, r.v)]
    [] s.s = "show" -> LET r == Eval(s.x, st.env) IN IF r.e # "" THEN fail(r.e) ELSE [st EXCEPT !.out = Append(@, r.v)]
    [] s.s = "def" -> [st EXCEPT !.env = Put(@, s.f.n, FnV(s.f)), !.macs = IF s.d THEN Put(@, s.f.n, FnV(s.f)) ELSE @]
    [] s.s = "bind" ->
         LET r == Eval(s.x, st.env) IN
         IF r.e # "" THEN fail(r.e)
         ELSE IF ~Callable(r.v) \/ r.v.nm = "<lambda>" THEN fail("TypeError")
         ELSE [st EXCEPT !.macs = Put(@, r.v.nm, r.v), !.out = Append(@, r.v)]
    [] s.s = "mimp" -> IF s.m = "__self__" THEN st ELSE [st EXCEPT !.env = Put(@, s.m, ModV(s.m))]
    [] s.s \in {"imp", "from"} ->
         LET f == Fresh(s.m, st.loaded) IN
         IF f.e # "" THEN fail(f.e)
         ELSE IF s.s = "imp" THEN [st EXCEPT !.loaded = f.l, !.env = Put(@, s.m, ModV(s.m))]
         ELSE IF s.n \in DOMAIN f.l[s.m] THEN [st EXCEPT !.loaded = f.l, !.env = Put(@, s.r, f.l[s.m][s.n])]
         ELSE [st EXCEPT !.loaded = f.l, !.e = "ImportError"]
    [] s.s = "del" -> IF s.n \in DOMAIN st.env THEN [st EXCEPT !.env = Del(@, s.n)] ELSE fail("NameError")
    [] s.s = "fail" -> fail("ZeroDivisionError")
RECURSIVE Run(_, _)
Run(ss, st) == IF ss = <<>> \/ st.e # "" THEN st ELSE Run(Tail(ss), Run1(ss[1], st))

\* ---- an input --------------------------------------------------------------------
\* [e, before, loaded, env, macs, pend, out]; before: whether it failed before it ran
Input(v) ==
  LET w == v.w
      none == [e |-> "", before |-> FALSE, loaded |-> loaded, env |-> env[w], macs |-> macs[w], pend |-> pend[w], out |-> <<>>]
      \* in IPython the functions imported are bound whatever has happened
      over(st) == IF IPython THEN [st EXCEPT !.env = st.pend @@ @, !.pend = Empty] ELSE st
  IN IF v.st = "syntax" THEN over([none EXCEPT !.e = "SyntaxError", !.before = TRUE])
     ELSE
     LET m == Imports(v.ss, loaded, env[w], Empty)
         has == [none EXCEPT !.loaded = m.l, !.macs = m.b @@ @, !.pend = m.b @@ @]
         x == ExpAll(v.ss, has.macs)
     IN IF m.e # "" THEN over([none EXCEPT !.loaded = m.l, !.e = m.e, !.before = TRUE])
        ELSE IF x.e # "" THEN over([has EXCEPT !.e = x.e, !.before = TRUE])
        ELSE IF x.c /\ IPython /\ Len(v.ss) > 1 THEN [has EXCEPT !.e = "unspecified"]     \* compiles statement by statement
        ELSE IF x.c THEN over([has EXCEPT !.e = "TypeError", !.before = TRUE])
        ELSE LET r == Run(x.ss, has) IN [r EXCEPT !.env = r.pend @@ @, !.pend = Empty]

Entry(r, w) == [e |-> r.e, before |-> r.before, out |-> r.out, env |-> r.env, macs |-> r.macs]
InStep(v) ==
  LET r == Input(v) IN
  /\ loaded' = r.loaded
  /\ env' = [env EXCEPT ![v.w] = r.env]
  /\ macs' = [macs EXCEPT ![v.w] = r.macs]
  /\ pend' = [pend EXCEPT ![v.w] = r.pend]
  /\ log' = Append(log, Entry(r, v.w))
  /\ UNCHANGED disk
Current(f) == \E m \in DOMAIN disk : disk[m].st = "ok" /\ \E j \in 1..Len(disk[m].fs) : disk[m].fs[j].id = f.id
\* the tree of an expression, expanded if n = "yes"; the session stays as it is
DumpStep(v) ==
  LET r == IF v.n = "yes" THEN Exp(v.x, macs[v.w], 6) ELSE [e |-> "", x |-> v.x, c |-> FALSE]
      over == pend[v.w] @@ env[v.w]
  IN /\ log' = Append(log, [e |-> IF r.c THEN "unspecified" ELSE r.e, before |-> FALSE, out |-> <<r.x>>, env |-> over, macs |-> macs[v.w]])
     /\ env' = [env EXCEPT ![v.w] = over] /\ pend' = [pend EXCEPT ![v.w] = Empty]
     /\ UNCHANGED <<disk, loaded, macs>>
QueryStep(v) ==
  LET e == IF v.q # "macros" /\ v.n \notin DOMAIN env[v.w] THEN "NameError" ELSE ""
      a == IF e # "" \/ v.q = "macros" THEN "" ELSE
           LET f == env[v.w][v.n] IN
           IF f.k # "fn" THEN "other" ELSE IF v.q = "src" /\ ~Current(f) THEN "unspecified" ELSE f.id
  IN /\ log' = Append(log, [e |-> e, before |-> FALSE, out |-> <<a>>, env |-> env[v.w], macs |-> macs[v.w]])
     /\ UNCHANGED <<disk, loaded, env, macs, pend>>
EditStep(v) == disk' = [disk EXCEPT ![v.m] = v.c] /\ log' = Append(log, <<>>) /\ UNCHANGED <<loaded, env, macs, pend>>

Init == /\ tid \in 1..NumIn /\ i = 0
        /\ disk = In(tid).mods /\ loaded = Empty
        /\ env = [w \in 1..In(tid).n |-> Empty] /\ macs = [w \in 1..In(tid).n |-> Empty] /\ pend = [w \in 1..In(tid).n |-> Empty]
        /\ log = <<>>
Next == /\ i < Len(S.evs) /\ i' = i + 1 /\ UNCHANGED tid
        /\ LET v == S.evs[i + 1] IN
           CASE v.k = "in" -> InStep(v) [] v.k = "query" /\ v.q = "dump" -> DumpStep(v) [] v.k = "query" -> QueryStep(v) [] v.k = "edit" -> EditStep(v)

\* ---- properties ------------------------------------------------------------------
Ev == S.evs[i + 1]
Agree(f, g, names) == \A x \in (DOMAIN f \cup DOMAIN g) \ names : x \in DOMAIN f /\ x \in DOMAIN g /\ f[x] = g[x]
MImps(v) == {j \in 1..Len(v.ss) : v.ss[j].s = "mimp"}
Imported(v) == UNION {{v.ss[j].a[k].r : k \in 1..Len(v.ss[j].a)} : j \in MImps(v)}
\* an input does nothing to other sessions, and nothing but an input does anything to its own
Isolated == [][\A w \in Cons : (Ev.k = "in" /\ Ev.w = w) \/ (env'[w] = env[w] /\ macs'[w] = macs[w])]_vars
\* an input that fails before it runs leaves all there was, but for the macros that it has imported
Failed == [][(Ev.k = "in" /\ log'[i + 1].before) =>
               /\ Agree(macs[Ev.w], macs'[Ev.w], IF Ev.st = "syntax" THEN {} ELSE Imported(Ev))
               /\ IPython \/ env'[Ev.w] = env[Ev.w]]_vars
\* macros come from macro-imports and from macro()
Sources == [][\A w \in Cons : \A x \in DOMAIN macs'[w] :
                (x \in DOMAIN macs[w] /\ macs'[w][x] = macs[w][x])
                \/ (Ev.k = "in" /\ Ev.st # "syntax" /\ Ev.w = w
                    /\ (x \in Imported(Ev) \/ \E j \in 1..Len(Ev.ss) : Ev.ss[j].s \in {"bind", "def"}))]_vars
\* no macro is ever lost
Stays == [][\A w \in Cons : DOMAIN macs[w] \subseteq DOMAIN macs'[w]]_vars
\* what has been imported is what the module defines now, and is bound to its name as a function, too
Latest(v, w, E, M) == \A j \in MImps(v) : (v.ss[j].m # "__self__" /\ Len(v.ss) = 1) =>
            \A k \in 1..Len(v.ss[j].a) : LET a == v.ss[j].a[k] IN
              /\ M[a.r] = E[a.r]
              /\ ((\E f \in 1..Len(disk[v.ss[j].m].fs) : disk[v.ss[j].m].fs[f].n = a.n)
                  /\ \A l \in (k + 1)..Len(v.ss[j].a) : v.ss[j].a[l].r # a.r) =>
                    \E f \in 1..Len(disk[v.ss[j].m].fs) : M[a.r] = FnV(disk[v.ss[j].m].fs[f]) /\ disk[v.ss[j].m].fs[f].n = a.n
UpToDate == [][(Ev.k = "in" /\ Ev.st # "syntax" /\ log'[i + 1].e = "") => Latest(Ev, Ev.w, env'[Ev.w], macs'[Ev.w])]_vars

J == JsonDeserialize("input.json")
JIn(k) == J[k]
JN == Len(J)
Report == (i = Len(S.evs)) => PrintT("@" \o ToJson([id |-> tid, log |-> log]))
=============================================================================
