------------------------------ MODULE Hygiene ------------------------------
(* Hygienic captures (C09). A definition module has variables, and macros that
   capture them (or other macros) in the code they make. Use modules have sites
   where these macros are invoked. Processes follow one another; a use module is
   expanded when it is loaded and no compiled code of it was kept.

   Values:  [k |-> "i", n]   a number
            [k |-> "s", s]   a text (names the macro that made it)
            [k |-> "r", n]   the object at an address of the heap, a list of values

   A site: [kind, x, y, user]
     v  captures x                 e  captures the expression [x, y]
     p  captures x and y           f  captures a function that returns x
     A N P W K R  capture a macro (expression, name, with arguments, block, decorator, recursive)
     B Q  as A and R, in another module where the captured macros have the names they have here
     V  captures a macro that captures the variable x2 of another module
   user: what the code at the site has in the invocation: "n" a number, "l" a local
   variable with a captured name, "m" an invocation of a macro imported under the name of a captured one *)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets
CONSTANTS N, In(_), Script, MaxSteps
VARIABLES id, in, i, heap, env, write, code, cache, fresh, live, mine, trees, obs, calls
vars == <<id, in, i, heap, env, write, code, cache, fresh, live, mine, trees, obs, calls>>
None == [has |-> FALSE, f |-> <<>>]

I(n) == [k |-> "i", n |-> n, s |-> ""]
S(s) == [k |-> "s", n |-> 0, s |-> s]
R(a) == [k |-> "r", n |-> a, s |-> ""]

\* a value with all that is in it
RECURSIVE Show(_, _)
Show(v, h) == [k |-> v.k, n |-> IF v.k = "r" THEN 0 ELSE v.n, s |-> v.s, c |-> IF v.k = "r" THEN [j \in 1..Len(h[v.n]) |-> Show(h[v.n][j], h)] ELSE <<>>]
Obj(c) == [k |-> "r", n |-> 0, s |-> "", c |-> c]

\* copies of what can be reached from a value
RECURSIVE Reach(_, _, _)
Reach(todo, seen, h) == IF todo = {} THEN seen
                        ELSE LET a == CHOOSE a \in todo : TRUE
                                 new == {h[a][j].n : j \in {j \in 1..Len(h[a]) : h[a][j].k = "r"}}
                             IN Reach((todo \union new) \ (seen \union {a}), seen \union {a}, h)
Rank(a, set) == Cardinality({b \in set : b <= a})
\* <<value, heap>>: the frozen value f, thawed into a heap
Thaw(f, h) ==
  IF f.v.k # "r" THEN <<f.v, h>>
  ELSE LET set == Reach({f.v.n}, {}, f.h)
           Move(v) == IF v.k = "r" THEN R(Len(h) + Rank(v.n, set)) ELSE v
           At(r) == CHOOSE a \in set : Rank(a, set) = r
       IN <<Move(f.v), h \o [r \in 1..Cardinality(set) |-> [j \in 1..Len(f.h[At(r)]) |-> Move(f.h[At(r)][j])]]>>

\* ---- expansion -----------------------------------------------------------------
Frz(v) == [v |-> v, h |-> heap]
Captures(s) == CASE s.kind = "v" -> <<Frz(env[s.x])>>
                 [] s.kind = "p" -> <<Frz(env[s.x]), Frz(env[s.y])>>
                 [] s.kind = "e" -> <<[v |-> R(Len(heap) + 1), h |-> Append(heap, <<env[s.x], env[s.y]>>)]>>
                 [] s.kind = "V" -> <<Frz(env["x2"])>>
                 [] OTHER -> <<>>
MacroOf == [A |-> <<"mA">>, N |-> <<"mN">>, B |-> <<"mB">>, Q |-> <<"qEven", "qOdd", "qEven">>, P |-> <<"mP">>, W |-> <<"mW">>, K |-> <<"mK">>, V |-> <<"mV">>, R |-> <<"mEven", "mOdd", "mEven", "mOdd">>]
Calls(s) == (IF s.kind \in DOMAIN MacroOf THEN MacroOf[s.kind] ELSE <<>>) \o (IF s.user = "m" THEN <<"mOther">> ELSE <<>>)
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))

UserVal(s) == CASE s.user = "n" -> [k |-> "i", n |-> 7, s |-> "", c |-> <<>>]
                [] s.user = "l" -> [k |-> "s", n |-> 0, s |-> "local", c |-> <<>>]
                [] s.user = "m" -> Obj(<<[k |-> "s", n |-> 0, s |-> "mOther", c |-> <<>>], [k |-> "i", n |-> 8, s |-> "", c |-> <<>>]>>)
Text(t) == [k |-> "s", n |-> 0, s |-> t, c |-> <<>>]
Num(n) == [k |-> "i", n |-> n, s |-> "", c |-> <<>>]
MacroResult(s) == CASE s.kind = "A" -> <<Obj(<<Text("mA"), UserVal(s)>>)>>
                    [] s.kind = "B" -> <<Obj(<<Text("mB"), UserVal(s)>>)>>
                    [] s.kind = "Q" -> <<Text("qeven"), UserVal(s)>>
                    [] s.kind = "N" -> <<Text("mN"), UserVal(s)>>
                    [] s.kind = "P" -> <<Obj(<<Text("mP"), Num(3), UserVal(s)>>)>>
                    [] s.kind = "W" -> <<Text("mW"), UserVal(s)>>
                    [] s.kind = "K" -> <<Obj(<<Text("mK"), UserVal(s)>>)>>
                    [] s.kind = "R" -> <<Text("odd"), UserVal(s)>>

\* ---- actions -------------------------------------------------------------------
Mods == 1..Len(in.mods)
NoLive == [m \in Mods |-> [s \in 1..Len(in.mods[m]) |-> None]]
Start(p) == [heap |-> p.heap, env |-> p.env, write |-> p.write]
Set(a) ==         \* the variable gets a number, a new list, what another one has, or a list with that
  LET new == CASE a.how = "num" -> <<I(a.n), heap>>
               [] a.how = "list" -> <<R(Len(heap) + 1), Append(heap, <<I(a.n)>>)>>
               [] a.how = "same" -> <<env[a.y], heap>>
               [] a.how = "wrap" -> <<R(Len(heap) + 1), Append(heap, <<env[a.y]>>)>>
  IN /\ env' = [env EXCEPT ![a.x] = new[1]] /\ heap' = new[2]
     /\ UNCHANGED <<write, code, cache, fresh, live, mine, trees, obs, calls>>
Mut(a) == /\ heap' = IF env[a.x].k = "r" THEN [heap EXCEPT ![env[a.x].n] = Append(@, I(a.n))] ELSE heap
          /\ UNCHANGED <<env, write, code, cache, fresh, live, mine, trees, obs, calls>>
Load(a) == LET m == a.mod IN
  IF code[m].has THEN UNCHANGED <<env, heap, write, code, cache, fresh, live, mine, trees, obs, calls>>
  ELSE IF cache[m].has /\ fresh[m]
  THEN code' = [code EXCEPT ![m] = cache[m]] /\ UNCHANGED <<env, heap, write, cache, fresh, live, mine, trees, obs, calls>>
  ELSE LET c == [has |-> TRUE, f |-> [s \in 1..Len(in.mods[m]) |-> Captures(in.mods[m][s])]] IN
       /\ code' = [code EXCEPT ![m] = c]
       /\ IF write THEN cache' = [cache EXCEPT ![m] = c] /\ fresh' = [fresh EXCEPT ![m] = TRUE] ELSE UNCHANGED <<cache, fresh>>
       /\ calls' = calls \o Join([s \in 1..Len(in.mods[m]) |-> Calls(in.mods[m][s])])
       /\ UNCHANGED <<env, heap, write, live, mine, trees, obs>>
\* thaw all of a site's captures
RECURSIVE ThawAll(_, _, _)
ThawAll(fs, got, h) == IF fs = <<>> THEN <<got, h>> ELSE LET t == Thaw(Head(fs), h) IN ThawAll(Tail(fs), Append(got, t[1]), t[2])
Act(a) == LET m == a.mod s == a.site site == in.mods[m][s] IN
  IF ~code[m].has THEN UNCHANGED <<env, heap, write, code, cache, fresh, live, mine, trees, obs, calls>>
  ELSE LET t == IF live[m][s].has THEN <<live[m][s].f, heap>> ELSE ThawAll(code[m].f[s], <<>>, heap)
           vs == IF site.kind = "f" THEN <<env[site.x]>> ELSE t[1]
           h == t[2]
           slot == IF a.slot <= Len(vs) /\ a.slot > 0 /\ vs[a.slot].k = "r" THEN a.slot ELSE 0
           shown == IF site.kind \in {"A", "B", "Q", "N", "P", "W", "K", "R"} THEN MacroResult(site)
                    ELSE [j \in 1..Len(vs) |-> Show(vs[j], h)] \o <<UserVal(site)>>
       IN /\ obs' = Append(obs, shown)
          /\ live' = IF site.kind = "f" THEN live ELSE [live EXCEPT ![m][s] = [has |-> TRUE, f |-> t[1]]]
          /\ heap' = IF slot = 0 THEN h ELSE [h EXCEPT ![vs[slot].n] = Append(@, I(a.n))]
          /\ mine' = IF slot = 0 \/ site.kind = "f" THEN mine ELSE [mine EXCEPT ![m][s] = Append(@, <<slot, a.n>>)]
          /\ UNCHANGED <<env, write, code, cache, fresh, trees, calls>>
Touch(a) == fresh' = [fresh EXCEPT ![a.mod] = FALSE] /\ UNCHANGED <<env, heap, write, code, cache, live, mine, trees, obs, calls>>
Restart(a) == /\ env' = a.p.env /\ heap' = a.p.heap /\ write' = a.p.write
              /\ code' = [m \in Mods |-> None] /\ live' = NoLive /\ mine' = [m \in Mods |-> [s \in 1..Len(in.mods[m]) |-> <<>>]] /\ trees' = <<>>
              /\ UNCHANGED <<cache, fresh, obs, calls>>
\* code made by a capture in this process, and run or asked for later
Probe(a) == trees' = Append(trees, [f |-> Frz(env[a.x]), has |-> FALSE, v |-> I(0)]) /\ UNCHANGED <<env, heap, write, code, cache, fresh, live, mine, obs, calls>>
Look(a) == IF a.n > Len(trees) THEN UNCHANGED <<env, heap, write, code, cache, fresh, live, mine, trees, obs, calls>>
           ELSE LET x == trees[a.n]
                    t == IF x.has THEN <<x.v, heap>> ELSE Thaw(x.f, heap)
                IN /\ trees' = [trees EXCEPT ![a.n] = [@ EXCEPT !.has = TRUE, !.v = t[1]]]
                   /\ obs' = Append(obs, <<Show(t[1], t[2])>>)
                   /\ heap' = IF t[1].k = "r" THEN [t[2] EXCEPT ![t[1].n] = Append(@, I(a.k))] ELSE t[2]
                   /\ UNCHANGED <<env, write, code, cache, fresh, live, mine, calls>>
\* many captures of one variable with other values, each run and forgotten
Many(a) == /\ obs' = obs \o [j \in 1..a.n |-> <<Show(I(j), heap)>>]
           /\ UNCHANGED <<env, heap, write, code, cache, fresh, live, mine, trees, calls>>
Do(a) == CASE a.op = "set" -> Set(a)
           [] a.op = "mut" -> Mut(a)
           [] a.op = "load" -> Load(a)
           [] a.op = "act" -> Act(a)
           [] a.op = "touch" -> Touch(a)
           [] a.op = "restart" -> Restart(a)
           [] a.op = "probe" -> Probe(a)
           [] a.op = "look" -> Look(a)
           [] a.op = "many" -> Many(a)
Init == /\ id \in 1..N /\ in = In(id) /\ i = 0
        /\ heap = in.start.heap /\ env = in.start.env /\ write = in.start.write
        /\ code = [m \in Mods |-> None] /\ cache = [m \in Mods |-> None] /\ fresh = [m \in Mods |-> FALSE]
        /\ live = NoLive /\ mine = [m \in Mods |-> [s \in 1..Len(in.mods[m]) |-> <<>>]] /\ trees = <<>> /\ obs = <<>> /\ calls = <<>>
\* the actions of the script, or any
Last == IF Script THEN Len(in.acts) ELSE MaxSteps
Next == /\ i < Last /\ i' = i + 1 /\ UNCHANGED <<id, in>>
        /\ IF Script THEN Do(in.acts[i + 1]) ELSE \E j \in 1..Len(in.acts) : Do(in.acts[j])

\* ---- properties ------------------------------------------------------------------
Seen(m, s) == live[m][s].has
Added(m, s, slot) == LET mine1 == SelectSeq(mine[m][s], LAMBDA p : p[1] = slot) IN [j \in 1..Len(mine1) |-> Num(mine1[j][2])]
\* What a site has is what was captured when it was expanded, with its own changes in this process and no others.
Own == \A m \in Mods : \A s \in 1..Len(in.mods[m]) : Seen(m, s) =>
         \A slot \in 1..Len(live[m][s].f) :
            LET v == live[m][s].f[slot]
                f == code[m].f[s][slot]
                was == Show(f.v, f.h)
            IN Show(v, heap) = IF v.k = "r" THEN [was EXCEPT !.c = @ \o Added(m, s, slot)] ELSE was
\* no two sites have an object in common, nor has one with the definition module
Roots(m, s) == {live[m][s].f[j].n : j \in {j \in 1..Len(live[m][s].f) : live[m][s].f[j].k = "r"}}
All(m, s) == Reach(Roots(m, s), {}, heap)
Theirs == Reach({env[x].n : x \in {x \in DOMAIN env : env[x].k = "r"}}, {}, heap)
Separate == /\ \A m \in Mods : \A s \in 1..Len(in.mods[m]) : Seen(m, s) => All(m, s) \cap Theirs = {}
            /\ \A m1, m2 \in Mods : \A s1 \in 1..Len(in.mods[m1]), s2 \in 1..Len(in.mods[m2]) :
                  (Seen(m1, s1) /\ Seen(m2, s2) /\ <<m1, s1>> # <<m2, s2>>) => All(m1, s1) \cap All(m2, s2) = {}
\* what was kept for later processes changes only when it is made again
Kept == [][\A m \in Mods : (cache[m].has /\ fresh[m] /\ fresh'[m]) => cache'[m] = cache[m]]_vars
\* macros are called when a module is expanded and never else
CallsOnlyThen == [][calls' # calls => \E m \in Mods : ~code[m].has /\ code'[m].has /\ ~(cache[m].has /\ fresh[m])]_vars

J == JsonDeserialize("input.json")
JIn(k) == J[k]
JN == Len(J)
Report == (Script /\ i = Last) => PrintT("@" \o ToJson([id |-> id, obs |-> obs, calls |-> calls]))
=============================================================================
