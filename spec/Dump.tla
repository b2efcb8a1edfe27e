-------------------------------- MODULE Dump --------------------------------
(* What is shown about a tree (C28).
   Trees: [k: "node", v: class, n: length of v, f: names of the fields, fn: their lengths, c: their values, a: names of the attributes, d: their values]
          [k: "list", c: items]    [k: "val", v: text of the value, n: its length].
   The dump is written token by token; whatever is inside a bracket is in one line or, when there are lines,
   each item starts below the first. Then the tokens are read back, which must give the tree again.
   Input: [tree, attrs, lines, src: lines of the source code shown, max]                                    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, In(_)
VARIABLES id, in, pc, work, col, align, toks, read
vars == <<id, in, pc, work, col, align, toks, read>>

\* work: what is still to be written, first first
Tree(t) == [w |-> "tree", t |-> t]
Tok(k, x, n) == [w |-> "tok", k |-> k, v |-> x, n |-> n]
RECURSIVE Sep(_)
Sep(ws) == IF Len(ws) <= 1 THEN IF ws = <<>> THEN <<>> ELSE ws[1]
           ELSE ws[1] \o <<Tok("sep", "", 0)>> \o Sep(Tail(ws))
Fields(t) == [i \in 1..Len(t.f) |-> <<Tok("field", t.f[i], t.fn[i]), Tree(t.c[i])>>]
Attrs(t) == IF in.attrs THEN [i \in 1..Len(t.a) |-> <<Tok("field", t.a[i], t.an[i]), Tree(t.d[i])>>] ELSE <<>>
Open(t) ==
  CASE t.k = "node" -> <<Tok("open", t.v, t.n)>> \o Sep(Fields(t) \o Attrs(t)) \o <<Tok("close", "", 0)>>
    [] t.k = "list" -> <<Tok("lopen", "", 0)>> \o Sep([i \in 1..Len(t.c) |-> <<Tree(t.c[i])>>]) \o <<Tok("lclose", "", 0)>>
    [] OTHER -> <<Tok("val", t.v, t.n)>>

Init == /\ id \in 1..N /\ in = In(id) /\ pc = "write" /\ work = <<Tree(in.tree)>>
        /\ col = 0 /\ align = <<>> /\ toks = <<>> /\ read = <<>>
Unfold == /\ pc = "write" /\ work # <<>> /\ Head(work).w = "tree"
          /\ work' = Open(Head(work).t) \o Tail(work) /\ UNCHANGED <<id, in, pc, col, align, toks, read>>
Put(t, nl, c) == toks' = Append(toks, [k |-> t.k, v |-> t.v, nl |-> nl, col |-> c])
Write ==
  /\ pc = "write" /\ work # <<>> /\ Head(work).w = "tok"
  /\ LET t == Head(work) IN
     CASE t.k = "open" -> Put(t, FALSE, col) /\ col' = col + t.n + 1 /\ align' = <<col + t.n + 1>> \o align
       [] t.k = "lopen" -> Put(t, FALSE, col) /\ col' = col + 1 /\ align' = <<col + 1>> \o align
       [] t.k \in {"close", "lclose"} -> Put(t, FALSE, col) /\ col' = col + 1 /\ align' = Tail(align)
       [] t.k = "field" -> Put(t, FALSE, col) /\ col' = col + t.n + 1 /\ UNCHANGED align
       [] t.k = "val" -> Put(t, FALSE, col) /\ col' = col + t.n /\ UNCHANGED align
       [] t.k = "sep" -> Put(t, in.lines, Head(align)) /\ col' = (IF in.lines THEN Head(align) ELSE col + 2) /\ UNCHANGED align
  /\ work' = Tail(work) /\ UNCHANGED <<id, in, pc, read>>
Turn == pc = "write" /\ work = <<>> /\ pc' = "read" /\ work' = toks /\ UNCHANGED <<id, in, col, align, toks, read>>

\* reading back: a stack of what is open, each [k, v, names, items]
Frame(k, x) == [k |-> k, v |-> x, f |-> <<>>, c |-> <<>>]
Item(x) == [Head(read) EXCEPT !.c = Append(@, x)]
Back(x) == IF read = <<>> THEN <<x>> ELSE <<Item(x)>> \o Tail(read)
Value(fr) == fr
Read ==
  /\ pc = "read" /\ work # <<>>
  /\ LET t == Head(work) IN
     read' = CASE t.k = "open" -> <<Frame("node", t.v)>> \o read
               [] t.k = "lopen" -> <<Frame("list", "")>> \o read
               [] t.k = "field" -> <<[Head(read) EXCEPT !.f = Append(@, t.v)]>> \o Tail(read)
               [] t.k = "sep" -> read
               [] t.k = "val" -> (IF read = <<>> THEN <<Frame("val", t.v)>> ELSE <<Item(Frame("val", t.v))>> \o Tail(read))
               [] OTHER -> IF Len(read) = 1 THEN read ELSE <<[read[2] EXCEPT !.c = Append(@, Head(read))]>> \o SubSeq(read, 3, Len(read))
  /\ work' = Tail(work) /\ UNCHANGED <<id, in, pc, col, align, toks>>
End == pc = "read" /\ work = <<>> /\ pc' = "done" /\ UNCHANGED <<id, in, work, col, align, toks, read>>
Next == Unfold \/ Write \/ Turn \/ Read \/ End

\* ---- the line a tree is on: that of the first node, depth first, that has one
RECURSIVE Line(_), FirstLine(_)
Line(t) == IF t.k = "val" THEN ""
           ELSE IF t.k = "node" /\ \E i \in 1..Len(t.a) : t.a[i] = "lineno" /\ t.d[i].v # "None"
           THEN t.d[CHOOSE i \in 1..Len(t.a) : t.a[i] = "lineno"].v
           ELSE FirstLine(t.c)
FirstLine(ts) == IF ts = <<>> THEN "" ELSE LET x == Line(Head(ts)) IN IF x # "" THEN x ELSE FirstLine(Tail(ts))
\* the docstring of a body: its first statement, if that is a string and nothing else
IsStr(t) == t.k = "val" /\ t.str
Doc(t) == IF t.k # "list" \/ t.c = <<>> THEN ""
          ELSE LET s == t.c[1] IN
               IF s.k = "node" /\ s.v = "Expr" /\ s.c[1].k = "node" /\ s.c[1].v = "Constant" /\ IsStr(s.c[1].c[1]) THEN s.c[1].c[1].v ELSE ""
Shown == SubSeq(in.src, 1, IF Len(in.src) > in.max THEN in.max ELSE Len(in.src)) \o (IF Len(in.src) > in.max THEN <<"...">> ELSE <<>>)

\* ---- properties --------------------------------------------------------------------------
RECURSIVE Strip(_)
Strip(t) == CASE t.k = "val" -> Frame("val", t.v)
              [] t.k = "list" -> [Frame("list", "") EXCEPT !.c = [i \in 1..Len(t.c) |-> Strip(t.c[i])]]
              [] OTHER -> [k |-> "node", v |-> t.v, f |-> t.f \o (IF in.attrs THEN t.a ELSE <<>>),
                           c |-> [i \in 1..Len(t.c) |-> Strip(t.c[i])] \o (IF in.attrs THEN [i \in 1..Len(t.d) |-> Strip(t.d[i])] ELSE <<>>)]
ReadBack == pc = "done" => read = <<Strip(in.tree)>>
Closed == pc # "write" => align = <<>>
OneLine == \A i \in 1..Len(toks) : toks[i].nl => in.lines
Aligned == [][ toks' # toks /\ toks'[Len(toks')].nl => col' = Head(align) ]_vars
J == JsonDeserialize("input.json")
JIn(x) == J[x]
JN == Len(J)
Report == pc = "done" => PrintT("@" \o ToJson([id |-> id, toks |-> toks, line |-> Line(in.tree), doc |-> Doc(in.tree), shown |-> Shown]))
=============================================================================
