------------------------------ MODULE Captures ------------------------------
(* Hygienic captures as a macro sees them (C29).
   kind "tree": a syntax tree is walked, node by node, and the captures in it are found. A capture is a call of
     capture_value(x, "name"), lookup_value(("name", b"..")) or lookup_macro(("name", "unique", b"..")), where the
     function is reached as mcpyrate.quotes.f or as __import__("mcpyrate.quotes", ...).quotes.f - and nothing else is.
   kind "life": captures come to be. Quoted code is a list of parts [k, n, x]:
       val: h[n]   expr: h[n + [9]]   macro: h[m] of a macro   plain: n   prev: a[tree x]   like: code that looks like a capture
     expand: makes code x; in it, values are yet to be captured    run: runs code x; the tree it makes is a new one
     set/push: the variable is given a new list / its list is changed    capture/asmacro: the public functions
     look: the value of the j-th capture in tree x   change: it is changed   early: what code x hasn't captured yet  macro: the captured macro *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS N, In(_)
VARIABLES id, kind, ops, i, todo, found, env, codes, trees, store, uid, out
vars == <<id, kind, ops, i, todo, found, env, codes, trees, store, uid, out>>

\* ---- recognition ----------------------------------------------------------------------------------------------------
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Lit(t) == t.c[1].v
IsStr(t) == t.k = "Constant" /\ t.c[1].k = "lit" /\ Starts(Lit(t), "s:")
IsBytes(t) == t.k = "Constant" /\ t.c[1].k = "lit" /\ Starts(Lit(t), "bytes:")
Str(t) == SubSeq(Lit(t), 3, Len(Lit(t)))
Args(t) == t.c[2].c
Bare(t) == Len(t.c[3].c) = 0
Module(t) == \/ t.k = "Name" /\ t.c[1].v = "mcpyrate"
             \/ /\ t.k = "Call" /\ t.c[1].k = "Name" /\ t.c[1].c[1].v = "__import__"
                /\ Len(Args(t)) > 0 /\ IsStr(Args(t)[1]) /\ Str(Args(t)[1]) = "mcpyrate.quotes"
Quotes(t) == t.k = "Attribute" /\ t.c[2].v = "quotes" /\ Module(t.c[1])
Calls(t, f) == t.k = "Call" /\ t.c[1].k = "Attribute" /\ t.c[1].c[2].v = f /\ Quotes(t.c[1].c[1]) /\ Bare(t)
Key(t, types) == /\ Len(Args(t)) = 1 /\ Args(t)[1].k = "Tuple" /\ Len(Args(t)[1].c[1].c) = Len(types)
                 /\ \A j \in 1..Len(types) : IF types[j] = "s" THEN IsStr(Args(t)[1].c[1].c[j]) ELSE IsBytes(Args(t)[1].c[1].c[j])
KeyAt(t, j) == Args(t)[1].c[1].c[j]
Pre(t) == Calls(t, "capture_value") /\ Len(Args(t)) = 2 /\ IsStr(Args(t)[2])
Post(t) == Calls(t, "lookup_value") /\ Key(t, <<"s", "b">>)
Mac(t) == Calls(t, "lookup_macro") /\ Key(t, <<"s", "s", "b">>)
Found(t) == IF Pre(t) THEN <<[st |-> "pre", n |-> Str(Args(t)[2]), u |-> "", b |-> ""]>>
            ELSE IF Post(t) THEN <<[st |-> "post", n |-> Str(KeyAt(t, 1)), u |-> "", b |-> Lit(KeyAt(t, 2))]>>
            ELSE IF Mac(t) THEN <<[st |-> "macro", n |-> Str(KeyAt(t, 1)), u |-> Str(KeyAt(t, 2)), b |-> Lit(KeyAt(t, 3))]>>
            ELSE <<>>
\* what is shown as a capture: those that aren't within others
RECURSIVE Outer(_), OuterIn(_)
Outer(t) == IF Found(t) # <<>> THEN 1 ELSE OuterIn(t.c)
OuterIn(s) == IF s = <<>> THEN 0 ELSE Outer(Head(s)) + OuterIn(Tail(s))
RECURSIVE InAll(_), InAny(_)
InAll(t) == Found(t) \o InAny(t.c)
InAny(s) == IF s = <<>> THEN <<>> ELSE InAll(Head(s)) \o InAny(Tail(s))

Walk == /\ kind = "tree" /\ todo # <<>>
        /\ todo' = Head(todo).c \o Tail(todo)
        /\ found' = found \o Found(Head(todo))
        /\ UNCHANGED <<id, kind, ops, i, env, codes, trees, store, uid, out>>
\* nothing is found but what is there, in order
Sound == kind = "tree" => found \o InAny(todo) = InAll(In(id).tree)

\* ---- how captures come to be ----------------------------------------------------------------------------------------
O == ops[i]
Name(p) == IF p.k = "expr" THEN p.n \o " + [9]" ELSE p.n
Val(p) == IF p.k = "expr" THEN Append(env[p.n], 9) ELSE env[p.n]
Captures(p) == p.k \in {"val", "expr"}
\* the parts as expanded: macros are captured right away, and have their unique names
RECURSIVE Expanded(_, _)
Expanded(ps, u) == IF ps = <<>> THEN <<>>
                   ELSE IF Head(ps).k = "macro" THEN <<[Head(ps) EXCEPT !.x = u + 1]>> \o Expanded(Tail(ps), u + 1)
                   ELSE <<Head(ps)>> \o Expanded(Tail(ps), u)
Num(ps, k) == Cardinality({j \in 1..Len(ps) : ps[j].k = k})
RECURSIVE SeenIn(_)
SeenIn(ps) == IF ps = <<>> THEN <<>>
              ELSE (IF Captures(Head(ps)) THEN <<[st |-> "pre", n |-> Name(Head(ps)), u |-> 0]>>
                    ELSE IF Head(ps).k = "macro" THEN <<[st |-> "macro", n |-> Head(ps).n, u |-> Head(ps).x]>>
                    ELSE <<>>) \o SeenIn(Tail(ps))
\* what running it makes: nodes  [k: "cap" c | "ref" u | "text"]
RECURSIVE Made(_, _)
Made(ps, c) == IF ps = <<>> THEN <<>>
               ELSE LET p == Head(ps) IN
                    IF Captures(p) THEN <<[k |-> "cap", n |-> Name(p), x |-> c + 1]>> \o Made(Tail(ps), c + 1)
                    ELSE IF p.k = "prev" THEN <<[k |-> "tree", n |-> "", x |-> p.x]>> \o Made(Tail(ps), c)
                    ELSE <<[k |-> IF p.k = "macro" THEN "ref" ELSE "text", n |-> p.n, x |-> p.x]>> \o Made(Tail(ps), c)
RECURSIVE Caught(_)
Caught(ps) == IF ps = <<>> THEN <<>>
              ELSE (IF Captures(Head(ps)) THEN <<[n |-> Name(Head(ps)), v |-> Val(Head(ps)), by |-> 0]>> ELSE <<>>) \o Caught(Tail(ps))
\* the captures in a tree, also in the trees in it
RECURSIVE CapsIn(_, _)
CapsIn(nodes, ts) == IF nodes = <<>> THEN <<>>
                 ELSE (CASE Head(nodes).k = "cap" -> <<[n |-> Head(nodes).n, c |-> Head(nodes).x]>>
                         [] Head(nodes).k = "tree" -> CapsIn(ts[Head(nodes).x].nodes, ts)
                         [] OTHER -> <<>>) \o CapsIn(Tail(nodes), ts)
RECURSIVE TextOf(_, _), TextAll(_, _)
TextOf(n, ts) == CASE n.k = "cap" -> "$h[" \o n.n \o "]"
               [] n.k = "ref" -> n.n \o "#" \o ToString(n.x)
               [] n.k = "tree" -> (IF ts[n.x].list THEN "[" \o TextAll(ts[n.x].nodes, ts) \o "]" ELSE TextAll(ts[n.x].nodes, ts))
               [] OTHER -> n.n
TextAll(s, ts) == IF s = <<>> THEN "" ELSE TextOf(s[1], ts) \o (IF Len(s) > 1 THEN ", " ELSE "") \o TextAll(Tail(s), ts)
\* what is seen of the newest tree
Shown(t, ts) == [r |-> "tree", v |-> <<>>, seen |-> [j \in 1..Len(CapsIn(t.nodes, ts)) |-> [st |-> "post", n |-> CapsIn(t.nodes, ts)[j].n, u |-> CapsIn(t.nodes, ts)[j].c]],
                 text |-> IF t.list THEN "[" \o TextAll(t.nodes, ts) \o "]" ELSE TextAll(t.nodes, ts)]
Ans(r, v) == [r |-> r, v |-> v, seen |-> <<>>, text |-> ""]
Put(o) == out' = Append(out, o) /\ i' = i + 1 /\ UNCHANGED <<id, kind, ops, todo, found>>
Cap == CapsIn(trees[O.x].nodes, trees)[O.j]

NewTree(t, caught) == /\ trees' = Append(trees, t) /\ store' = store \o caught
                      /\ Put(Shown(t, Append(trees, t)))
Live == /\ kind = "life" /\ i <= Len(ops)
        /\ CASE O.op = "set" -> env' = [env EXCEPT ![O.n] = <<O.v>>] /\ Put(Ans("", <<>>)) /\ UNCHANGED <<codes, trees, store, uid>>
             [] O.op = "push" -> env' = [env EXCEPT ![O.n] = Append(@, O.v)] /\ Put(Ans("", <<>>)) /\ UNCHANGED <<codes, trees, store, uid>>
             [] O.op = "expand" -> /\ codes' = Append(codes, Expanded(O.parts, uid)) /\ uid' = uid + Num(O.parts, "macro")
                                   /\ Put([Ans("code", <<>>) EXCEPT !.seen = SeenIn(Expanded(O.parts, uid))])
                                   /\ UNCHANGED <<env, trees, store>>
             [] O.op = "run" -> /\ NewTree([nodes |-> Made(codes[O.x], Len(store)), list |-> TRUE], Caught(codes[O.x]))
                                /\ UNCHANGED <<env, codes, uid>>
             [] O.op = "capture" -> /\ NewTree([nodes |-> <<[k |-> "cap", n |-> O.b, x |-> Len(store) + 1]>>, list |-> FALSE], <<[n |-> O.b, v |-> env[O.n], by |-> 0]>>)
                                    /\ UNCHANGED <<env, codes, uid>>
             [] O.op = "asmacro" -> /\ NewTree([nodes |-> <<[k |-> "ref", n |-> O.n, x |-> uid + 1]>>, list |-> FALSE], <<>>)
                                    /\ uid' = uid + 1 /\ UNCHANGED <<env, codes>>
             [] O.op \in {"look", "eval"} ->
                    /\ IF O.x > Len(trees) \/ O.j > Len(CapsIn(trees[O.x].nodes, trees)) THEN Put(Ans("skip", <<>>))
                       ELSE IF store[Cap.c].by \notin (IF O.op = "eval" THEN {0} ELSE {0, O.x}) THEN Put(Ans("any", <<>>))
                       ELSE Put(Ans("value", store[Cap.c].v))
                    /\ UNCHANGED <<env, codes, trees, store, uid>>
             [] O.op = "change" ->
                    /\ IF O.x > Len(trees) \/ O.j > Len(CapsIn(trees[O.x].nodes, trees)) THEN Put(Ans("skip", <<>>)) /\ UNCHANGED store
                       ELSE /\ store' = [store EXCEPT ![Cap.c].v = Append(@, O.v), ![Cap.c].by = IF @ \in {0, O.x} THEN O.x ELSE -1]
                            /\ Put(Ans("", <<>>))
                    /\ UNCHANGED <<env, codes, trees, uid>>
             [] O.op = "early" ->
                    /\ Put(Ans(IF \E j \in 1..Len(codes[O.x]) : Captures(codes[O.x][j]) THEN "ValueError" ELSE "skip", <<>>))
                    /\ UNCHANGED <<env, codes, trees, store, uid>>
             [] O.op = "macro" ->
                    /\ Put(LET s == SelectSeq(codes[O.x], LAMBDA p : p.k = "macro")
                           IN IF Len(s) < O.j THEN Ans("skip", <<>>) ELSE [Ans("macro", <<s[O.j].x>>) EXCEPT !.text = s[O.j].n])
                    /\ UNCHANGED <<env, codes, trees, store, uid>>

Ended == IF kind = "tree" THEN todo = <<>> ELSE i > Len(ops)
\* a capture, once made, has the value of that moment: only changing it itself changes it
Frozen == [][\A c \in 1..Len(store) : store'[c].v # store[c].v => O.op = "change" /\ Cap.c = c]_vars
\* captures are made by running code, and by nothing else; every run makes its own
Fresh == [][Len(store') # Len(store) => O.op \in {"run", "capture"} /\ Len(trees') = Len(trees) + 1]_vars
\* a name given to a macro is not given again
Unique == \A a, b \in 1..Len(codes) : \A j \in 1..Len(codes[a]) : \A k \in 1..Len(codes[b]) :
              codes[a][j].k = "macro" /\ codes[b][k].k = "macro" /\ codes[a][j].x = codes[b][k].x => a = b /\ j = k

Init == /\ id \in 1..N /\ kind = In(id).kind /\ ops = In(id).ops /\ i = 1
        /\ todo = IF kind = "tree" THEN <<In(id).tree>> ELSE <<>>
        /\ found = <<>> /\ env = [n \in {"y", "z"} |-> IF n = "y" THEN <<1>> ELSE <<2>>]
        /\ codes = <<>> /\ trees = <<>> /\ store = <<>> /\ uid = 0 /\ out = <<>>
Next == Walk \/ Live
Report == Ended => PrintT("@" \o ToJson([id |-> id, found |-> found, out |-> out, outer |-> IF kind = "tree" THEN Outer(In(id).tree) ELSE 0]))
J == JsonDeserialize("input.json")
JIn(x) == J[x]
JN == Len(J)
=============================================================================
