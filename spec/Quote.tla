------------------------------- MODULE Quote -------------------------------
(* Quasiquotes (C08). A program is an expression at level 0, or the body of a
   block quote (level 1). First the operators are found, outermost first, and
   each is marked with what it is at its level: a quote at level 0 and an
   unquote at level 1 act ("@"), the others stay in the quoted code ("&").
   Then the program is run: the operators that act are evaluated one by one,
   innermost first. The outcome of an expression that is a quote again (what
   was quoted twice) is taken as the next program.

   Values:  $ast <<tree>>     a syntax tree
            $seq              a list (v = "list"), tuple or other iterable of values
            $py <<lifted>>    a constant, or a dict or set of constants, with the tree that makes it
            $str <<lifted, parsed or Nil>>   a text, with the expression it reads as
            $marker <<tree>>  an AST marker with a tree (or a list of trees) in it
            $other            any other object
            $bad              there was an error                                    *)
EXTENDS Trees, Json, FiniteSets
CONSTANTS N, In(_)      \* input: [tree, block, env, ops, parse, stages]
VARIABLES id, in, pc, stage, prog, t, errs, log, ms, outs
vars == <<id, in, pc, stage, prog, t, errs, log, ms, outs>>

ExprKinds == {"BoolOp", "NamedExpr", "BinOp", "UnaryOp", "Lambda", "IfExp", "Dict", "Set", "ListComp", "SetComp", "DictComp", "GeneratorExp",
  "Await", "Yield", "YieldFrom", "Compare", "Call", "FormattedValue", "JoinedStr", "Constant", "Attribute", "Subscript", "Starred", "Name", "List", "Tuple", "Slice"}
StmtKinds == {"FunctionDef", "AsyncFunctionDef", "ClassDef", "Return", "Delete", "Assign", "AugAssign", "AnnAssign", "For", "AsyncFor", "While", "If", "With",
  "AsyncWith", "Match", "Raise", "Try", "TryStar", "Assert", "Import", "ImportFrom", "Global", "Nonlocal", "Expr", "Pass", "Break", "Continue", "TypeAlias"}
Unquotes == {"u", "n", "a", "s", "t", "h"}

RECURSIVE Erase(_)
Erase(x) == T(x.k, x.v, IF x.p = "" THEN "" ELSE "?", [i \in 1..Len(x.c) |-> Erase(x.c[i])])

\* ---- finding operators ------------------------------------------------------------
\* the operator or macro that a name is bound to; "" if none
Bound(name) == LET S == {i \in 1..Len(in.ops) : in.ops[i][1] = name} IN IF S = {} THEN "" ELSE in.ops[CHOOSE i \in S : TRUE][2]
IsName(x) == x.k = "Name"
OpOf(x) == CASE x.k = "Subscript" /\ IsName(x.c[1]) -> Bound(NameOf(x.c[1]))
             [] x.k = "With" /\ Len(x.c[1].c) = 1 /\ IsName(x.c[1].c[1].c[1]) -> Bound(NameOf(x.c[1].c[1].c[1]))
             [] OTHER -> ""
Marked(x) == x.v \in {"&", "@"}
Inside(x) == IF x.k \in {"Subscript", "With"} THEN 2 ELSE 1      \* which field an operator acts on
Deeper(op, lvl) == IF op = "q" THEN lvl + 1 ELSE IF op \in Unquotes THEN lvl - 1 ELSE lvl

\* The first operator that is not marked yet, outermost and leftmost, as <<path, op, level>>; <<>> if none.
\* The ordinary macro counts only outside of quotes.
RECURSIVE Find(_, _)
Find(x, lvl) ==
  LET op == IF IsLeaf(x) THEN "" ELSE OpOf(x)
      here == op # "" /\ ~(op = "m" /\ lvl > 0)
      RECURSIVE From(_, _)
      From(i, l) == IF i > Len(x.c) THEN <<>>
                    ELSE LET r == Find(x.c[i], l) IN IF r = <<>> THEN From(i + 1, l) ELSE <<<<i>> \o r[1], r[2], r[3]>>
  IN IF IsLeaf(x) THEN <<>>
     ELSE IF here /\ ~Marked(x) THEN <<<<>>, op, lvl>>
     ELSE IF here THEN LET r == Find(x.c[Inside(x)], Deeper(op, lvl)) IN IF r = <<>> THEN r ELSE <<<<Inside(x)>> \o r[1], r[2], r[3]>>
     ELSE From(1, lvl)

RECURSIVE PutAt(_, _, _)
PutAt(x, p, y) == IF p = <<>> THEN y ELSE [x EXCEPT !.c = [@ EXCEPT ![p[1]] = PutAt(x.c[p[1]], Tail(p), y)]]
RECURSIVE At(_, _)
At(x, p) == IF p = <<>> THEN x ELSE At(x.c[p[1]], Tail(p))

Cov(n) == T("cov", "", "", <<Lit(n)>>)
Sp(c) == T("$sp", "", "", c)
\* wrong uses, found while expanding
Unbalanced(op, lvl) == op \in Unquotes /\ lvl = 0
WrongMode(x, op, lvl) ==
  /\ x.k = "With"
  /\ \/ op \in {"u", "n", "s", "t", "h", "m"}
     \/ op = "a" /\ x.c[1].c[1].c[2] # Nil                                          \* no as-part
     \/ op = "q" /\ lvl = 0                                                         \* only inside a block unquote, where an expression must be
     \/ op = "a" /\ lvl = 1 /\ \E i \in 1..Len(x.c[2].c) : x.c[2].c[i].k # "Expr"
Acts(op, lvl) == op = "m" \/ (op = "q" /\ lvl = 0) \/ (op \in Unquotes /\ lvl = 1)
\* what the block form of an operator leaves is preceded by a note for the coverage report
WithNote(x, op, y) == IF x.k = "With" THEN Sp(<<Cov(NameOf(x.c[1].c[1].c[1])), y>>) ELSE y

Init == /\ id \in 1..N /\ in = In(id) /\ pc = "expand" /\ stage = 1
        /\ prog = Erase(in.tree) /\ t = Erase(in.tree) /\ errs = {} /\ log = <<>> /\ ms = 0 /\ outs = <<>>
StartLevel == IF in.block THEN 1 ELSE 0
Mark == /\ pc = "expand" /\ LET f == Find(t, StartLevel) IN
           /\ f # <<>>
           /\ LET x == At(t, f[1]) op == f[2] lvl == f[3] IN
              IF Unbalanced(op, lvl) \/ WrongMode(x, op, lvl)
              THEN pc' = "error" /\ errs' = {"SyntaxError"} /\ UNCHANGED <<t, ms>>
              ELSE /\ t' = PutAt(t, f[1], WithNote(x, op, [x EXCEPT !.v = IF Acts(op, lvl) THEN "@" ELSE "&"]))
                   /\ ms' = ms + (IF op = "m" THEN 1 ELSE 0)
                   /\ UNCHANGED <<pc, errs>>
        /\ UNCHANGED <<id, in, stage, prog, log, outs>>
Expanded == pc = "expand" /\ Find(t, StartLevel) = <<>> /\ pc' = "run" /\ UNCHANGED <<id, in, stage, prog, t, errs, log, ms, outs>>

\* ---- running -----------------------------------------------------------------------
\* The innermost first operator that acts, as a path; <<0>> if none.
RECURSIVE Active(_)
Active(x) == LET RECURSIVE From(_)
                 From(i) == IF i > Len(x.c) THEN <<0>> ELSE LET r == Active(x.c[i]) IN IF r = <<0>> THEN From(i + 1) ELSE <<i>> \o r
                 r == IF IsLeaf(x) \/ x.k \in {"$ast", "$py", "$str", "$seq"} THEN <<0>> ELSE From(1)
             IN IF r # <<0>> THEN r ELSE IF x.v = "@" THEN <<>> ELSE <<0>>

V(k, c) == T(k, "", "", c)
Bad == V("$bad", <<>>)
Other == V("$other", <<>>)
Lookup(ps, k) == LET S == {i \in 1..Len(ps) : ps[i][1] = k} IN IF S = {} THEN Other ELSE ps[CHOOSE i \in S : TRUE][2]
IsVal(c) == c.k \in {"$ast", "$seq", "$py", "$str", "$marker", "$other", "$bad"}
\* the code of level 0 that programs have: names, displays, constants and calls of `val`
RECURSIVE Code(_)
Code(c) ==
  CASE IsVal(c) -> c
    [] c.k = "Name" -> Lookup(in.env, NameOf(c))
    [] c.k = "Call" -> Lookup(in.env, c.c[2].c[1].c[1].v)
    [] c.k = "List" -> T("$seq", "list", "", [i \in 1..Len(c.c[1].c) |-> Code(c.c[1].c[i])])
    [] c.k = "Tuple" -> T("$seq", "tuple", "", [i \in 1..Len(c.c[1].c) |-> Code(c.c[1].c[i])])
    [] c.k = "Constant" -> LET p == Lookup(in.parse, c.c[1].v) IN IF p = Other THEN V("$py", <<c>>) ELSE V("$str", <<c, p>>)
    [] OTHER -> Other
RECURSIVE Calls(_)
Calls(c) == IF IsLeaf(c) \/ (IsVal(c) /\ c.k # "$seq") THEN <<>>
            ELSE (IF c.k = "Call" THEN <<c.c[2].c[1].c[1].v>> ELSE <<>>) \o Concat([i \in 1..Len(c.c) |-> Calls(c.c[i])])
RECURSIVE HasBad(_)
HasBad(v) == v.k = "$bad" \/ (v.k = "$seq" /\ \E i \in 1..Len(v.c) : HasBad(v.c[i]))

\* the tree that makes a value; Other if it cannot be lifted
Display(k, es) == T(k, "", "?", <<L(es)>>)
RECURSIVE Lift(_)
Lift(v) == CASE v.k \in {"$py", "$str"} -> v.c[1]
             [] v.k = "$seq" /\ v.v \in {"list", "tuple"} ->
                  LET es == [i \in 1..Len(v.c) |-> Lift(v.c[i])]
                  IN IF \E i \in 1..Len(es) : es[i] = Other THEN Other ELSE Display(IF v.v = "list" THEN "List" ELSE "Tuple", es)
             [] OTHER -> Other
\* the trees in a list of values, nested lists included; <<Other>> if one of them is not of the wanted kinds
RECURSIVE Trees(_, _)
\* constants with no tree in them: None, nested empty lists, and what has only such in it
RECURSIVE NoneIn(_)
NoneIn(x) == IF x.k = "Constant" THEN x.c[1].v = "None" ELSE x.k = "List" /\ \A i \in 1..Len(x.c[1].c) : NoneIn(x.c[1].c[i])
Hollow(v) == /\ v.k \in {"$py", "$str"}
             /\ LET x == v.c[1] IN IF x.k = "Constant" THEN x.c[1].v \in {"s:", "bytes:b''"} ELSE \A i \in 1..Len(x.c[1].c) : NoneIn(x.c[1].c[i])
RECURSIVE OfKind(_, _)
OfKind(x, kinds) == IF IsList(x) THEN \A i \in 1..Len(x.c) : OfKind(x.c[i], kinds)
                    ELSE IF x.k = "Mark" THEN OfKind(x.c[1], kinds) ELSE x.k \in kinds
TreeOf(v, kinds) == CASE v.k = "$py" /\ NoneIn(v.c[1]) -> <<>>
                      [] v.k \in {"$ast", "$marker"} /\ (v.k = "$ast" => ~IsList(v.c[1])) /\ OfKind(v.c[1], kinds) -> <<IF v.k = "$ast" THEN v.c[1] ELSE T("Mark", "", "", <<v.c[1]>>)>>
                      [] v.k = "$seq" /\ v.v = "list" -> Trees(v, kinds)
                      [] OTHER -> <<Other>>
Trees(v, kinds) == LET all == Concat([i \in 1..Len(v.c) |-> TreeOf(v.c[i], kinds)])
                   IN IF \E i \in 1..Len(all) : all[i] = Other THEN <<Other>> ELSE all
TypeError == [e |-> {"TypeError"}, x |-> Bad]
Ok(x) == [e |-> {}, x |-> x]
\* a tree as a value for u: not covered here
RECURSIVE HasTree(_)
HasTree(v) == v.k \in {"$ast", "$marker"} \/ (v.k = "$seq" /\ \E i \in 1..Len(v.c) : HasTree(v.c[i]))
\* splicing; a list of trees can only go where a list is
RECURSIVE Misplaced(_)
Misplaced(x) == \/ x.k = "$sp"
                \/ \E i \in 1..Len(x.c) : IF IsList(x) /\ x.c[i].k = "$sp" THEN Misplaced(L(x.c[i].c)) ELSE Misplaced(x.c[i])
RECURSIVE Spliced(_)
Spliced(x) == IF IsList(x) THEN L(Concat([i \in 1..Len(x.c) |-> IF x.c[i].k = "$sp" THEN Spliced(L(x.c[i].c)).c ELSE <<Spliced(x.c[i])>>]))
              ELSE T(x.k, IF x.v = "&" THEN "" ELSE x.v, x.p, [i \in 1..Len(x.c) |-> Spliced(x.c[i])])

\* what an operator makes of its (evaluated) code
Quoted(body) == IF HasKind(body, "$bad") THEN Ok(Bad)
                ELSE IF Misplaced(body) THEN [e |-> {"RuntimeError"}, x |-> Bad]
                ELSE Ok(V("$ast", <<Spliced(body)>>))
\* a value that has to be a sequence: the values in it
ToSeq(v) == v.k = "$seq" \/ Hollow(v)
SeqTrees(v, kinds) == IF Hollow(v) THEN <<>> ELSE Trees(v, kinds)
Unquote(op, x) ==
  IF x.k = "With" THEN       \* the block form of a
       LET vs == [i \in 1..Len(x.c[2].c) |-> Code(x.c[2].c[i].c[1])]
           all == Trees(T("$seq", "list", "", vs), StmtKinds)
       IN IF \E i \in 1..Len(vs) : HasBad(vs[i]) THEN Ok(Bad) ELSE IF all = <<Other>> THEN TypeError ELSE Ok(Sp(all))
  ELSE LET v == Code(x.c[2]) IN
       IF HasBad(v) THEN Ok(Bad)
       ELSE CASE op = "h" -> [e |-> {"?"}, x |-> Bad]       \* see Hygiene
              [] op = "u" -> IF HasTree(v) THEN [e |-> {"?"}, x |-> Bad] ELSE IF Lift(v) = Other THEN TypeError ELSE Ok(Lift(v))
              [] op = "n" -> IF v.k # "$str" THEN TypeError ELSE IF v.c[2] = Nil THEN [e |-> {"SyntaxError"}, x |-> Bad] ELSE Ok(v.c[2])
              [] op = "a" -> IF v.k \in {"$ast", "$marker"} THEN (IF TreeOf(v, ExprKinds) = <<Other>> THEN TypeError ELSE Ok(TreeOf(v, ExprKinds)[1]))
                             ELSE IF ~ToSeq(v) \/ SeqTrees(v, ExprKinds) = <<Other>> THEN TypeError ELSE Ok(Sp(SeqTrees(v, ExprKinds)))
              [] OTHER    -> IF ~ToSeq(v) \/ SeqTrees(v, ExprKinds) = <<Other>> THEN TypeError
                             ELSE Ok(Display(IF op = "s" THEN "List" ELSE "Tuple", SeqTrees(v, ExprKinds)))
Eval == /\ pc = "run" /\ LET p == Active(t) IN
           /\ p # <<0>>
           /\ LET x == At(t, p)
                  op == OpOf(x)
                  r == IF op = "q" THEN Quoted(x.c[2]) ELSE IF op = "m" THEN Ok(x.c[2]) ELSE Unquote(op, x)
              IN /\ t' = PutAt(t, p, r.x) /\ errs' = errs \union r.e
                 /\ log' = IF op \in Unquotes THEN log \o Calls(x.c[2]) ELSE log
        /\ UNCHANGED <<id, in, pc, stage, prog, ms, outs>>
\* is the code that runs in a program made by another one of the kinds above?
Text(v) == Len(v) > 1 /\ SubSeq(v, 1, 2) = "s:"
RECURSIVE Runs(_, _)
Runs(x, lvl) ==
  LET op == IF IsLeaf(x) THEN "" ELSE OpOf(x) IN
  CASE IsLeaf(x) -> TRUE
    [] x.k \in {"Mark", "cov"} -> FALSE
    [] lvl = 0 /\ op = "" ->
         CASE x.k = "Name" -> Lookup(in.env, NameOf(x)) # Other
           [] x.k = "Call" -> /\ x.c[1].k = "Name" /\ NameOf(x.c[1]) = "val" /\ Len(x.c[2].c) = 1 /\ Len(x.c[3].c) = 0 /\ x.c[2].c[1].k = "Constant"
                              /\ Lookup(in.env, x.c[2].c[1].c[1].v) # Other
           [] x.k \in {"List", "Tuple"} -> \A i \in 1..Len(x.c[1].c) : Runs(x.c[1].c[i], 0)
           [] x.k = "Constant" -> Text(x.c[1].v) => Lookup(in.parse, x.c[1].v) # Other
           [] OTHER -> FALSE
    [] op = "" \/ (op = "m" /\ lvl > 0) -> \A i \in 1..Len(x.c) : Runs(x.c[i], lvl)
    [] op \in Unquotes /\ lvl = 0 -> TRUE
    [] op = "h" /\ lvl = 1 -> FALSE
    [] OTHER -> x.k = "Subscript" /\ Runs(x.c[2], Deeper(op, lvl))
Result == IF in.block THEN Quoted(t) ELSE Ok(Code(t))
Done == /\ pc = "run" /\ Active(t) = <<0>>
        /\ LET r == Result
               good == errs \union r.e = {}
               again == good /\ ~in.block /\ stage < in.stages /\ r.x.k = "$ast" /\ OpOf(r.x.c[1]) = "q" /\ Runs(r.x.c[1], 0)
           IN /\ errs' = errs \union r.e
              /\ outs' = IF good THEN Append(outs, r.x) ELSE outs
              /\ pc' = IF ~good THEN "error" ELSE IF again THEN "expand" ELSE "done"
              /\ stage' = IF again THEN stage + 1 ELSE stage
              /\ t' = IF again THEN Erase(r.x.c[1]) ELSE t
              /\ prog' = IF again THEN Erase(r.x.c[1]) ELSE prog
        /\ UNCHANGED <<id, in, log, ms>>
Next == Mark \/ Expanded \/ Eval \/ Done

\* ---- properties ----------------------------------------------------------------------
\* The meaning of quoted code, by its structure: what stays, stays; an unquote of this level is replaced.
RECURSIVE Mean(_, _)
RECURSIVE Run(_)
\* code of level 0, with quotes in it
Run(x) == IF IsLeaf(x) THEN x
          ELSE IF OpOf(x) = "q" /\ x.k = "Subscript" THEN Quoted(Mean(x.c[2], 1)).x
          ELSE IF OpOf(x) = "m" /\ x.k = "Subscript" THEN Run(x.c[2])
          ELSE [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Run(x.c[i])]]
Mean(x, lvl) ==
  LET op == IF IsLeaf(x) THEN "" ELSE OpOf(x)
      f == Inside(x)
  IN IF IsLeaf(x) THEN x
     ELSE IF op \in {"", "m"} THEN [x EXCEPT !.c = [i \in 1..Len(x.c) |-> Mean(x.c[i], lvl)]]
     ELSE WithNote(x, op, IF op \in Unquotes /\ lvl = 1 THEN Unquote(op, [x EXCEPT !.c = [@ EXCEPT ![f] = Run(x.c[f])]]).x
                          ELSE [x EXCEPT !.c = [@ EXCEPT ![f] = Mean(x.c[f], Deeper(op, lvl))]])
Faithful == (pc = "done" /\ outs # <<>>) =>
              outs[Len(outs)] = (IF in.block THEN Quoted(Mean(prog, 1)).x ELSE Code(Run(prog)))
\* nothing internal is left, and an error leaves no result
RECURSIVE Internal(_)
Internal(x) == (~IsVal(x) /\ ((x.v \in {"@", "&"} /\ ~IsLeaf(x)) \/ x.k \in {"$sp"})) \/ \E i \in 1..Len(x.c) : Internal(x.c[i])
Clean == \A i \in 1..Len(outs) : ~Internal(outs[i])
ErrorMeansNone == (pc = "error") <=> (errs # {} /\ pc \notin {"run"})
\* quoted code with no operator that acts on it comes out as it is
RECURSIVE Acting(_, _)
Acting(x, lvl) == LET op == IF IsLeaf(x) THEN "" ELSE OpOf(x) IN
  IF op \in {"", "m"} THEN \E i \in 1..Len(x.c) : Acting(x.c[i], lvl)
  ELSE (op \in Unquotes /\ lvl = 1) \/ Acting(x.c[Inside(x)], Deeper(op, lvl))
RECURSIVE HasBlockOp(_)
HasBlockOp(x) == ~IsLeaf(x) /\ ((x.k = "With" /\ OpOf(x) \notin {"", "m"}) \/ \E i \in 1..Len(x.c) : HasBlockOp(x.c[i]))
Verbatim == (pc = "done" /\ in.block /\ ~Acting(prog, 1) /\ ~HasBlockOp(prog)) => outs[1].c[1] = prog
\* the steps
Steps == [][/\ pc = "expand" /\ pc' = "expand" /\ stage' = stage => Len(outs') = Len(outs)
            /\ errs \subseteq errs' /\ Len(log) <= Len(log')]_vars
J == JsonDeserialize("input.json")
JIn(i) == J[i]
JN == Len(J)
Report == pc \in {"done", "error"} => PrintT("@" \o ToJson([id |-> id, ok |-> pc = "done", outs |-> outs, errs |-> errs, stages |-> stage, log |-> log, ms |-> ms]))
=============================================================================
