----------------------------- MODULE Dialects -----------------------------
(* The dialect pipeline of one module (C13): source transformers, parsing, tree transformers, macro expansion,
   postprocessors, final check. The content is a sequence of tokens: lines of text, then statements.
   A token is [k, m, ns, v, ln]:
     imp    a dialect-import of the dialects ns from the module m, written in the way v
     str    a string literal, one line of which looks like a dialect-import
     ifimp  a dialect-import that is not at the top level
     log    an ordinary statement      mimp  a macro-import     mac  a macro invocation     macd  what it expanded to
     use    the plain import that an import became (m)
     alien  a line that is not Python  void  a comment or blank line                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, In(_)     \* input: [toks, beh (dialect -> [src, ast, post]), form]

VARIABLES id, in, pc, c, seen, cur, insts, made, step, debug, log, shown, pend, err
vars == <<id, in, pc, c, seen, cur, insts, made, step, debug, log, shown, pend, err>>

Tok(k, m, ns, v, ln) == [k |-> k, m |-> m, ns |-> ns, v |-> v, ln |-> ln]
Drop(p, n) == SubSeq(p, n + 1, Len(p))
Dialect == {"A", "B", "C"}
Next1(d) == IF d = "A" THEN "B" ELSE "C"
AbsMod(m) == IF m = ".dm" THEN "pk.dm" ELSE m
\* lines a token takes, and which of them holds the import
Height(t) == CASE t.k = "str" -> 3 [] t.k = "ifimp" -> 2 [] t.k = "imp" /\ t.v = "cont" -> 2 [] t.k = "imp" /\ t.v = "paren" -> 3 [] OTHER -> 1
RECURSIVE LineOf(_, _)
LineOf(s, i) == IF i = 1 THEN 1 ELSE LineOf(s, i - 1) + Height(s[i - 1])
\* the text of an import, as remembered: trailing blanks do not count
Text(t) == <<t.m, t.ns, IF t.v = "trail" THEN "" ELSE t.v>>
SourceSees(t) == (t.k = "imp" /\ t.v \notin {"cont", "paren"}) \/ t.k = "str"

Init == /\ id \in 1..N /\ in = In(id)
        /\ c = in.toks /\ seen = {} /\ cur = [m |-> "", ns |-> <<>>, ln |-> 0] /\ insts = <<>> /\ made = 0
        /\ step = 0 /\ debug = FALSE /\ log = <<>> /\ shown = <<>> /\ err = "" /\ pend = <<>>
        /\ pc = IF in.form \in {"ast", "list"} THEN "parse" ELSE "src"

Plain(t) == [t EXCEPT !.ln = 0]
Pl(s) == [i \in 1..Len(s) |-> Plain(s[i])]
Sh(what, n, s) == << [w |-> what, n |-> n, s |-> pc, c |-> Pl(s)] >>
Show(line) == IF debug THEN shown \o line ELSE shown
Fail(e) == pc' = "error" /\ err' = e
Keep(v) == UNCHANGED v

\* ---- which import is next ----------------------------------------------------------
Firsts(P(_)) == LET S == {i \in 1..Len(c) : P(i)} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
NextSrc == Firsts(LAMBDA i : SourceSees(c[i]) /\ Text(c[i]) \notin seen)
NextAst == Firsts(LAMBDA i : c[i].k = "imp")
\* importing the names of a dialect-import
Resolve(t) == IF t.m = "pk.nope" THEN "ModuleNotFoundError"
              ELSE IF t.v = "as" THEN "ImportError"
              ELSE IF \E i \in 1..Len(t.ns) : t.ns[i] = "MISSING" THEN "ImportError" ELSE ""
\* a name that appears twice in one import is one dialect
RECURSIVE Dedup(_, _)
Dedup(s, done) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in done THEN Dedup(Tail(s), done) ELSE <<Head(s)>> \o Dedup(Tail(s), done \cup {Head(s)})

FindSrc == /\ pc = "src" /\ cur.ns = <<>>
           /\ IF NextSrc = 0
              THEN pc' = "parse" /\ shown' = Show(Sh("completed source", step, <<>>)) /\ UNCHANGED <<seen, cur, err>>
              ELSE LET t == c[NextSrc]  e == Resolve(t) IN
                   /\ seen' = seen \cup {Text(t)} /\ UNCHANGED shown
                   /\ IF e # "" THEN Fail(e) /\ UNCHANGED cur
                      ELSE cur' = [m |-> AbsMod(t.m), ns |-> Dedup(t.ns, {}), ln |-> LineOf(c, NextSrc) + (IF t.k = "str" THEN 1 ELSE 0)] /\ UNCHANGED <<pc, err>>
           /\ UNCHANGED <<id, in, c, insts, made, step, debug, log, pend>>
FindAst == /\ pc = "ast" /\ cur.ns = <<>>
           /\ IF NextAst = 0
              THEN pc' = "macro" /\ shown' = Show(Sh("completed AST", step, <<>>)) /\ UNCHANGED <<c, cur, err>>
              ELSE LET i == NextAst  t == c[i]  e == Resolve(t) IN
                   /\ UNCHANGED shown
                   /\ IF e # "" THEN Fail(e) /\ UNCHANGED <<c, cur>>
                      ELSE /\ cur' = [m |-> AbsMod(t.m), ns |-> Dedup(t.ns, {}), ln |-> t.ln]
                           /\ c' = [c EXCEPT ![i] = Tok("use", AbsMod(t.m), <<>>, "", t.ln)] /\ UNCHANGED <<pc, err>>
           /\ UNCHANGED <<id, in, seen, insts, made, step, debug, log, pend>>

\* ---- one transformer ------------------------------------------------------------------
Mine(d, t) == t.k \in {"imp"} /\ \E i \in 1..Len(t.ns) : t.ns[i] = d
Imp(d) == Tok("imp", "pk.dm", <<d>>, "", 0)
Stmt(x) == Tok("log", "", <<>>, x, 0)
\* what a behaviour makes of the content, or "NI", or an error
SrcOf(b, d) == CASE b = "SAME" -> c
                 [] b = "APPEND" -> Append(c, Stmt("s" \o d))
                 [] b = "FRONT" -> <<Stmt("f" \o d)>> \o c
                 [] b = "DROP" -> SelectSeq(c, LAMBDA t : ~Mine(d, t))
                 [] b = "DROPALL" -> SelectSeq(c, LAMBDA t : t.k # "imp")
                 [] b = "ADDF" -> <<Imp(Next1(d))>> \o c
                 [] b = "ADDE" -> Append(c, Imp(Next1(d)))
                 [] b = "TRANS" -> [i \in 1..Len(c) |-> IF c[i].k = "alien" THEN Stmt("t" \o d) ELSE c[i]]
AstOf(b, d) == CASE b \in {"SAME", "NEW"} -> c
                 [] b = "APPEND" -> Append(c, Stmt("a" \o d))
                 [] b = "ADDF" -> <<Imp(Next1(d))>> \o c
                 [] b = "ADDE" -> Append(c, Imp(Next1(d)))
                 [] b = "DROPALL" -> SelectSeq(c, LAMBDA t : t.k # "imp")
                 [] b = "MAC" -> <<Tok("mimp", "pk.mm", <<"x">>, "", 0)>> \o Append(c, Tok("mac", "", <<>>, d, 0))
PostOf(b, d) == CASE b = "SAME" -> c [] b = "APPEND" -> Append(c, Stmt("p" \o d)) [] b = "MARK" -> Append(c, Tok("mark", "", <<>>, d, 0))

Ev(kind, d, n, ln) == [e |-> kind, d |-> d, n |-> n, ln |-> ln, c |-> Pl(c)]
d0 == Head(cur.ns)
Advance == cur' = [cur EXCEPT !.ns = Tail(@)]
Outcome(b, result, what) ==
  IF b = "NI" THEN UNCHANGED <<c, step, shown, pc, err>>
  ELSE IF b \in {"EMPTY", "NONE", "RAISE"} \/ (result = <<>> /\ pc = "src") THEN Fail("ImportError") /\ UNCHANGED <<c, step, shown>>
  ELSE c' = result /\ step' = step + 1 /\ shown' = Show(Sh("after " \o what, step + 1, result)) /\ UNCHANGED <<pc, err>>

Src == /\ pc = "src" /\ cur.ns # <<>> /\ d0 \in Dialect
       /\ Advance /\ made' = made + 1
       /\ log' = Append(log, Ev("src", d0, made + 1, cur.ln))
       /\ Outcome(in.beh[d0].src, SrcOf(in.beh[d0].src, d0), d0)
       /\ UNCHANGED <<id, in, seen, insts, debug, pend>>
Ast == /\ pc = "ast" /\ cur.ns # <<>> /\ d0 \in Dialect
       /\ Advance /\ made' = made + 1
       /\ log' = Append(log, Ev("ast", d0, made + 1, cur.ln))
       /\ insts' = Append(insts, [d |-> d0, n |-> made + 1])
       /\ Outcome(in.beh[d0].ast, AstOf(in.beh[d0].ast, d0), d0)
       /\ UNCHANGED <<id, in, seen, debug, pend>>
\* the stepping dialect of mcpyrate.debug
Stepper == /\ pc \in {"src", "ast"} /\ cur.ns # <<>> /\ d0 = "StepExpansion"
           /\ Advance
           /\ insts' = IF pc = "ast" THEN Append(insts, [d |-> d0, n |-> 0]) ELSE insts
           /\ IF pc = "ast" /\ debug THEN UNCHANGED <<debug, step, shown>>
              ELSE debug' = TRUE /\ step' = step + 1 /\ shown' = shown \o Sh("enabled", step + 1, <<>>) \o Sh("after StepExpansion", step + 1, c)
           /\ UNCHANGED <<id, in, pc, c, seen, made, log, pend, err>>
BadDialect == /\ pc \in {"src", "ast"} /\ cur.ns # <<>> /\ d0 \notin Dialect \cup {"StepExpansion"}
              /\ Fail(IF d0 = "NOTD" THEN "TypeError" ELSE "ImportError")
              /\ UNCHANGED <<id, in, c, seen, cur, insts, made, step, debug, log, shown, pend>>

\* ---- parsing: comments vanish, every statement has its line -------------------------------
RECURSIVE Parsed(_, _)
Parsed(s, i) == IF i > Len(s) THEN <<>>
  ELSE LET t == s[i]  ln == LineOf(s, i) IN
    (IF t.k = "void" THEN <<>>
     ELSE IF t.k = "imp" /\ t.v = "semi" THEN <<[t EXCEPT !.ln = ln, !.v = ""], Tok("asg", "", <<>>, "", ln)>>
     ELSE IF t.k = "imp" THEN <<[t EXCEPT !.ln = ln, !.v = IF t.v = "as" THEN "as" ELSE ""]>>
     ELSE <<[t EXCEPT !.ln = ln]>>) \o Parsed(s, i + 1)
Parse == /\ pc = "parse"
         /\ IF \E i \in 1..Len(c) : c[i].k = "alien" THEN Fail("ImportError") /\ UNCHANGED <<c, shown>>
            ELSE c' = Parsed(c, 1) /\ pc' = "ast" /\ shown' = Show(Sh("before AST", step, c')) /\ UNCHANGED err
         /\ UNCHANGED <<id, in, seen, cur, insts, made, step, debug, log, pend>>

\* ---- macro expansion -----------------------------------------------------------------------
Bound == \E i \in 1..Len(c) : c[i].k = "mimp"
Macro == /\ pc = "macro"
         /\ LET uses == SelectSeq(c, LAMBDA t : t.k = "mac") IN
            log' = log \o (IF Bound THEN [i \in 1..Len(uses) |-> [e |-> "macro", d |-> uses[i].v, n |-> 0, ln |-> 0, c |-> <<>>]] ELSE <<>>)
         /\ c' = [i \in 1..Len(c) |-> IF c[i].k = "mac" /\ Bound THEN [c[i] EXCEPT !.k = "macd"] ELSE IF c[i].k = "mimp" THEN Tok("use", c[i].m, <<>>, "", c[i].ln) ELSE c[i]]
         /\ pc' = "post" /\ pend' = insts /\ shown' = Show(Sh("before post", step, c'))
         /\ UNCHANGED <<id, in, seen, cur, insts, made, step, debug, err>>
Post == /\ pc = "post" /\ pend # <<>>
        /\ pend' = Tail(pend)
        /\ LET h == Head(pend) IN
           IF h.d = "StepExpansion" THEN UNCHANGED <<c, step, shown, pc, err, log>>
           ELSE /\ log' = Append(log, Ev("post", h.d, h.n, 0))
                /\ Outcome(in.beh[h.d].post, PostOf(in.beh[h.d].post, h.d), h.d)
        /\ UNCHANGED <<id, in, seen, cur, insts, made, debug>>
Finish == /\ pc = "post" /\ pend = <<>>
          /\ shown' = Show(Sh("completed post", step, <<>>))
          /\ IF \E i \in 1..Len(c) : c[i].k = "mark" THEN Fail("MacroExpansionError") ELSE pc' = "done" /\ UNCHANGED err
          /\ UNCHANGED <<id, in, c, seen, cur, insts, made, step, debug, log, pend>>
Next == FindSrc \/ FindAst \/ Src \/ Ast \/ Stepper \/ BadDialect \/ Parse \/ Macro \/ Post \/ Finish

\* ---- properties -----------------------------------------------------------------------------
Done == pc \in {"done", "error"}
Rank(e) == CASE e = "src" -> 1 [] e = "ast" -> 2 [] e = "macro" -> 3 [] e = "post" -> 4
\* the stages never mix
Stages == \A i, j \in 1..Len(log) : i < j => Rank(log[i].e) <= Rank(log[j].e)
\* each tree transformer's instance is postprocessed once, in the same order, and source instances never are
Evs(e) == SelectSeq(log, LAMBDA x : x.e = e)
SameOrder == LET a == Evs("ast")  p == Evs("post") IN
   /\ Len(p) <= Len(a) /\ \A i \in 1..Len(p) : p[i].d = a[i].d /\ p[i].n = a[i].n
   /\ pc = "done" => Len(p) = Len(a)
Fresh == \A i, j \in 1..Len(log) : (i # j /\ log[i].e \in {"src", "ast"} /\ log[j].e \in {"src", "ast"}) => log[i].n # log[j].n
\* no dialect-import is left in the tree, and nothing imports what a dialect-import did not become
NoneLeft == pc \in {"macro", "post", "done"} => \A i \in 1..Len(c) : c[i].k # "imp"
\* every import of the text was seen by the time of parsing
AllSeen == (pc = "parse" /\ in.form \notin {"ast", "list"}) => NextSrc = 0
\* each gets what the previous one gave (source steps)
Chain == \A i \in 1..Len(log) - 1 : (log[i].e = "src" /\ log[i + 1].e = "src" /\ in.beh[log[i].d].src \in {"NI", "SAME"}) => log[i].c = log[i + 1].c
ChainP == \A i \in 1..Len(log) - 1 : (log[i].e = "post" /\ log[i + 1].e = "post" /\ in.beh[log[i].d].post \in {"NI", "SAME"}) => log[i].c = log[i + 1].c
StepCount == step >= 0 /\ (~debug => shown = <<>>)
Once == [][\A i \in 1..Len(log) : log'[i] = log[i]]_vars
=============================================================================
