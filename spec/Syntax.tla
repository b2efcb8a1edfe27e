------------------------------- MODULE Syntax -------------------------------
(* Python source text (C18): what tree a sequence of tokens stands for. This is the language the renderer has to
   write: operator precedence and associativity, the places of commas and parentheses, clauses, blocks, patterns,
   type parameters, formatted strings.
   in: [toks, tree]   toks: a sequence of [k, s, v]
     k  "n" name or keyword, "o" operator or delimiter, "c" literal (v: its Constant), "fs" "fm" "fe" parts of a formatted
        string (v of "fm": its Constant), "nl" "in" "out" layout
   The reader takes the text statement by statement, with a stack of the blocks that are open.                     *)
EXTENDS Trees, Json, FiniteSets
CONSTANTS N, In(_)
VARIABLES id, in, pos, done, result
vars == <<id, in, pos, done, result>>

Fail == 1000000
EndTok == [k |-> "end", s |-> "", v |-> Nil]
Tok(p) == IF p > Len(in.toks) THEN EndTok ELSE in.toks[p]
Is(p, s) == Tok(p).s = s /\ Tok(p).k \in {"n", "o"}
IsK(p, k) == Tok(p).k = k
IsAny(p, S) == Tok(p).k \in {"n", "o"} /\ Tok(p).s \in S
R(t, p) == [t |-> t, p |-> p]
Bad == R(Nil, Fail)
After(p, s) == IF Is(p, s) THEN p + 1 ELSE Fail
AfterK(p, k) == IF IsK(p, k) THEN p + 1 ELSE Fail
Keywords == {"False", "None", "True", "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del", "elif", "else", "except",
             "finally", "for", "from", "global", "if", "import", "in", "is", "lambda", "nonlocal", "not", "or", "pass", "raise", "return", "try",
             "while", "with", "yield"}
IsName(p) == IsK(p, "n") /\ Tok(p).s \notin Keywords
IsLit(p) == IsK(p, "c")
X(k, c) == T(k, "", "?", c)      \* a node with a position
Y(k, c) == T(k, "", "", c)       \* a node without
Op(k) == Y(k, <<>>)
NameAt(p) == X("Name", <<Id(Tok(p).s)>>)
IdAt(p) == Id(Tok(p).s)

BinOps == << [s \in {"|"} |-> "BitOr"], [s \in {"^"} |-> "BitXor"], [s \in {"&"} |-> "BitAnd"],
             ("<<" :> "LShift" @@ ">>" :> "RShift"), ("+" :> "Add" @@ "-" :> "Sub"),
             ("*" :> "Mult" @@ "/" :> "Div" @@ "//" :> "FloorDiv" @@ "%" :> "Mod" @@ "@" :> "MatMult") >>
AugOps == ("|=" :> "BitOr" @@ "^=" :> "BitXor" @@ "&=" :> "BitAnd" @@ "<<=" :> "LShift" @@ ">>=" :> "RShift" @@ "+=" :> "Add" @@ "-=" :> "Sub"
           @@ "*=" :> "Mult" @@ "/=" :> "Div" @@ "//=" :> "FloorDiv" @@ "%=" :> "Mod" @@ "@=" :> "MatMult" @@ "**=" :> "Pow")
CmpOps == ("==" :> "Eq" @@ "!=" :> "NotEq" @@ "<" :> "Lt" @@ "<=" :> "LtE" @@ ">" :> "Gt" @@ ">=" :> "GtE" @@ "in" :> "In")
UnOps == ("+" :> "UAdd" @@ "-" :> "USub" @@ "~" :> "Invert")

\* ---- expressions: each takes a position, and gives a tree and the position after it -----------------------
\* (the rules refer to each other through one operator, E)
RECURSIVE E(_, _), OrMore(_, _), AndMore(_, _), CmpMore(_, _, _, _), Bin(_, _), BinMore(_, _), Trail(_), StarSeq(_, _), Comps(_, _), Ifs(_, _), Args(_, _, _), Slices(_, _), DictItems(_, _, _), Joined(_, _), Params(_, _, _)

Named(p) == IF IsName(p) /\ Is(p + 1, ":=") THEN LET e == E("tern", p + 2) IN R(X("NamedExpr", <<NameAt(p), e.t>>), e.p) ELSE E("tern", p)
StarE(p) == IF Is(p, "*") THEN LET e == E("bin", p + 1) IN R(X("Starred", <<e.t>>), e.p) ELSE E("named", p)
\* items separated by commas; after the last there may be a comma
Stops == {")", "]", "}", "=", ":", "in", "!", "from"}
AtStop(p) == IsAny(p, Stops) \/ Tok(p).k \in {"nl", "end", "fe"} \/ IsAny(p, DOMAIN AugOps)
SeqFrom(e, acc) == IF Is(e.p, ",") THEN StarSeq(e.p + 1, Append(acc, e.t)) ELSE [ts |-> Append(acc, e.t), comma |-> FALSE, p |-> e.p]
StarSeq(p, acc) == IF AtStop(p) THEN [ts |-> acc, comma |-> TRUE, p |-> p] ELSE SeqFrom(E("star", p), acc)
\* an expression, or a tuple without parentheses
Exprs(p) == IF Is(p, "yield") THEN E("yield", p)
            ELSE LET s == StarSeq(p, <<>>) IN IF s.ts = <<>> THEN Bad ELSE IF Len(s.ts) = 1 /\ ~s.comma THEN R(s.ts[1], s.p) ELSE R(X("Tuple", <<L(s.ts)>>), s.p)
YieldE(p) == IF Is(p + 1, "from") THEN LET e == E("tern", p + 2) IN R(X("YieldFrom", <<e.t>>), e.p)
             ELSE IF AtStop(p + 1) THEN R(X("Yield", <<Nil>>), p + 1)
             ELSE LET e == E("exprs", p + 1) IN R(X("Yield", <<e.t>>), e.p)

Ternary(p) ==
  IF Is(p, "lambda") THEN LET a == Params(p + 1, ":", FALSE)  e == E("tern", After(a.p, ":")) IN R(X("Lambda", <<a.t, e.t>>), e.p)
  ELSE LET b == E("or", p) IN
       IF ~Is(b.p, "if") THEN b
       ELSE LET c == E("or", b.p + 1)  e == E("tern", After(c.p, "else")) IN R(X("IfExp", <<c.t, b.t, e.t>>), e.p)
Bools(kind, acc, p) == IF Len(acc) = 1 THEN R(acc[1], p) ELSE R(X("BoolOp", <<Op(kind), L(acc)>>), p)
OrMore(p, acc) == IF Is(p, "or") THEN LET e == E("and", p + 1) IN OrMore(e.p, Append(acc, e.t)) ELSE Bools("Or", acc, p)
AndMore(p, acc) == IF Is(p, "and") THEN LET e == E("not", p + 1) IN AndMore(e.p, Append(acc, e.t)) ELSE Bools("And", acc, p)
OrE(p) == LET e == E("and", p) IN OrMore(e.p, <<e.t>>)
AndE(p) == LET e == E("not", p) IN AndMore(e.p, <<e.t>>)
NotE(p) == IF Is(p, "not") THEN LET e == E("not", p + 1) IN R(X("UnaryOp", <<Op("Not"), e.t>>), e.p) ELSE E("cmp", p)
Cmp(p) == LET e == E("bin", p) IN CmpMore(e.p, e.t, <<>>, <<>>)
CmpMore(p, left, ops, es) ==
  LET o == IF IsAny(p, DOMAIN CmpOps) THEN [k |-> CmpOps[Tok(p).s], n |-> 1]
           ELSE IF Is(p, "not") /\ Is(p + 1, "in") THEN [k |-> "NotIn", n |-> 2]
           ELSE IF Is(p, "is") THEN (IF Is(p + 1, "not") THEN [k |-> "IsNot", n |-> 2] ELSE [k |-> "Is", n |-> 1])
           ELSE [k |-> "", n |-> 0]
  IN IF o.n = 0 THEN (IF ops = <<>> THEN R(left, p) ELSE R(X("Compare", <<left, L(ops), L(es)>>), p))
     ELSE LET e == Bin(p + o.n, 1) IN CmpMore(e.p, left, Append(ops, Op(o.k)), Append(es, e.t))
\* left-associative operators, the looser levels first
Bin(p, lev) == IF lev > 6 THEN E("unary", p) ELSE BinMore(Bin(p, lev + 1), lev)
BinMore(l, lev) == IF ~IsAny(l.p, DOMAIN BinOps[lev]) THEN l
                   ELSE LET r == Bin(l.p + 1, lev + 1) IN BinMore(R(X("BinOp", <<l.t, Op(BinOps[lev][Tok(l.p).s]), r.t>>), r.p), lev)
Unary(p) == IF IsAny(p, DOMAIN UnOps) THEN LET e == E("unary", p + 1) IN R(X("UnaryOp", <<Op(UnOps[Tok(p).s]), e.t>>), e.p) ELSE E("power", p)
Power(p) == LET b == IF Is(p, "await") THEN LET e == E("prim", p + 1) IN R(X("Await", <<e.t>>), e.p) ELSE E("prim", p)
            IN IF Is(b.p, "**") THEN LET e == E("unary", b.p + 1) IN R(X("BinOp", <<b.t, Op("Pow"), e.t>>), e.p) ELSE b
Prim(p) == Trail(E("atom", p))
Trail(b) ==
  IF Is(b.p, ".") THEN (IF IsName(b.p + 1) THEN Trail(R(X("Attribute", <<b.t, IdAt(b.p + 1)>>), b.p + 2)) ELSE Bad)
  ELSE IF Is(b.p, "(") THEN LET a == Args(b.p + 1, <<>>, <<>>) IN Trail(R(X("Call", <<b.t, L(a.as), L(a.ks)>>), After(a.p, ")")))
  ELSE IF Is(b.p, "[") THEN LET s == Slices(b.p + 1, <<>>)
                                starred == Len(s.ts) = 1 /\ s.ts[1].k = "Starred"
                            IN IF s.ts = <<>> THEN Bad
                               ELSE Trail(R(X("Subscript", <<b.t, IF Len(s.ts) = 1 /\ ~s.comma /\ ~starred THEN s.ts[1] ELSE X("Tuple", <<L(s.ts)>>)>>), After(s.p, "]")))
  ELSE b
\* arguments of a call, or of a class
Args(p, as, ks) ==
  LET next(q, as2, ks2) == IF Is(q, ",") THEN Args(q + 1, as2, ks2) ELSE [as |-> as2, ks |-> ks2, p |-> q] IN
  IF AtStop(p) THEN [as |-> as, ks |-> ks, p |-> p]
  ELSE IF Is(p, "*") THEN LET e == E("tern", p + 1) IN next(e.p, Append(as, X("Starred", <<e.t>>)), ks)
  ELSE IF Is(p, "**") THEN LET e == E("tern", p + 1) IN next(e.p, as, Append(ks, X("keyword", <<Nil, e.t>>)))
  ELSE IF IsName(p) /\ Is(p + 1, "=") THEN LET e == E("tern", p + 2) IN next(e.p, as, Append(ks, X("keyword", <<IdAt(p), e.t>>)))
  ELSE LET e == E("named", p) IN
       IF IsAny(e.p, {"for", "async"}) THEN LET g == Comps(e.p, <<>>) IN next(g.p, Append(as, X("GeneratorExp", <<e.t, L(g.ts)>>)), ks)
       ELSE next(e.p, Append(as, e.t), ks)
Slices(p, acc) ==
  IF Is(p, "]") THEN [ts |-> acc, comma |-> TRUE, p |-> p]
  ELSE LET lo == IF Is(p, ":") THEN R(Nil, p) ELSE E("star", p)
           end(q) == IsAny(q, {":", ",", "]"})
           up == IF end(lo.p + 1) THEN R(Nil, lo.p + 1) ELSE E("tern", lo.p + 1)
           st == IF ~Is(up.p, ":") THEN R(Nil, up.p) ELSE IF end(up.p + 1) THEN R(Nil, up.p + 1) ELSE E("tern", up.p + 1)
           e == IF Is(lo.p, ":") THEN R(X("Slice", <<lo.t, up.t, st.t>>), st.p) ELSE lo
       IN IF Is(e.p, ",") THEN Slices(e.p + 1, Append(acc, e.t)) ELSE [ts |-> Append(acc, e.t), comma |-> FALSE, p |-> e.p]
\* targets of for and with
Targets(p) ==
  LET RECURSIVE seq(_, _)
      one(q) == IF Is(q, "*") THEN LET e == E("bin", q + 1) IN R(X("Starred", <<e.t>>), e.p) ELSE E("bin", q)
      seq(q, acc) == IF AtStop(q) THEN [ts |-> acc, comma |-> TRUE, p |-> q]
                     ELSE LET e == one(q) IN IF Is(e.p, ",") THEN seq(e.p + 1, Append(acc, e.t)) ELSE [ts |-> Append(acc, e.t), comma |-> FALSE, p |-> e.p]
      s == seq(p, <<>>)
  IN IF s.ts = <<>> THEN Bad ELSE IF Len(s.ts) = 1 /\ ~s.comma THEN R(s.ts[1], s.p) ELSE R(X("Tuple", <<L(s.ts)>>), s.p)
Comps(p, acc) ==
  LET a == Is(p, "async")  q == IF a THEN p + 1 ELSE p IN
  IF ~Is(q, "for") THEN [ts |-> acc, p |-> q]
  ELSE LET t == E("targets", q + 1)  i == E("or", After(t.p, "in"))  c == Ifs(i.p, <<>>)
       IN Comps(c.p, Append(acc, Y("comprehension", <<t.t, i.t, L(c.ts), Lit(IF a THEN "int:1" ELSE "int:0")>>)))
Ifs(p, acc) == IF Is(p, "if") THEN LET e == E("or", p + 1) IN Ifs(e.p, Append(acc, e.t)) ELSE [ts |-> acc, p |-> p]
DictMore(p, star, k, v, ks, vs) ==
  IF IsAny(v.p, {"for", "async"}) /\ ks = <<>> /\ ~star
  THEN LET g == Comps(v.p, <<>>) IN R(X("DictComp", <<k.t, v.t, L(g.ts)>>), After(g.p, "}"))
  ELSE IF Is(v.p, ",") THEN DictItems(v.p + 1, Append(ks, k.t), Append(vs, v.t))
  ELSE R(X("Dict", <<L(Append(ks, k.t)), L(Append(vs, v.t))>>), After(v.p, "}"))
DictFrom(p, k, ks, vs) == DictMore(p, FALSE, k, E("tern", After(k.p, ":")), ks, vs)
DictItems(p, ks, vs) ==
  IF Is(p, "}") THEN R(X("Dict", <<L(ks), L(vs)>>), p + 1)
  ELSE IF Is(p, "**") THEN DictMore(p, TRUE, R(Nil, p + 1), E("bin", p + 1), ks, vs)
  ELSE DictFrom(p, E("tern", p), ks, vs)
\* what is inside brackets or parentheses: items, or a comprehension
InsideFrom(p, e, close, seqkind, compkind) ==
  IF IsAny(e.p, {"for", "async"}) THEN LET g == Comps(e.p, <<>>) IN R(X(compkind, <<e.t, L(g.ts)>>), After(g.p, close))
  ELSE LET s == SeqFrom(e, <<>>) IN
       IF seqkind = "Tuple" /\ Len(s.ts) = 1 /\ ~s.comma THEN R(s.ts[1], IF s.ts[1].k = "Starred" /\ Is(p, "*") THEN Fail ELSE After(s.p, close))
       ELSE R(X(seqkind, <<L(s.ts)>>), After(s.p, close))
Inside(p, close, seqkind, compkind) == IF Is(p, close) THEN R(X(seqkind, <<L(<<>>)>>), p + 1) ELSE InsideFrom(p, E("star", p), close, seqkind, compkind)
\* the parts of a formatted string, up to its end or that of the format
Joined(p, acc) ==
  IF IsK(p, "fm") /\ Tok(p).v.c[1].v = "s:" THEN Joined(p + 1, acc)
  ELSE IF IsK(p, "fm")
  THEN LET c == Tok(p).v  n == Len(acc) IN
       Joined(p + 1, IF n > 0 /\ acc[n].k = "Constant" THEN [acc EXCEPT ![n] = SetC(@, 1, Lit(@.c[1].v \o SubSeq(c.c[1].v, 3, Len(c.c[1].v))))] ELSE Append(acc, c))
  ELSE IF Is(p, "{")
  THEN LET e == E("exprs", p + 1)
           conv == IF Is(e.p, "!") THEN (CASE Is(e.p + 1, "s") -> "int:115" [] Is(e.p + 1, "r") -> "int:114" [] Is(e.p + 1, "a") -> "int:97" [] OTHER -> "?") ELSE "int:-1"
           q == IF Is(e.p, "!") THEN e.p + 2 ELSE e.p
           f == IF Is(q, ":") THEN Joined(q + 1, <<>>) ELSE [ts |-> <<>>, p |-> q]
       IN Joined(After(f.p, "}"), Append(acc, X("FormattedValue", <<e.t, Lit(conv), IF Is(q, ":") THEN X("JoinedStr", <<L(f.ts)>>) ELSE Nil>>)))
  ELSE [ts |-> acc, p |-> p]
Atom(p) ==
  CASE IsName(p) -> R(NameAt(p), p + 1)
    [] IsLit(p) -> R(Tok(p).v, p + 1)
    [] IsAny(p, {"True", "False", "None"}) -> R(X("Constant", <<Lit(Tok(p).s), Nil>>), p + 1)
    [] Is(p, "...") -> R(X("Constant", <<Lit("Ellipsis"), Nil>>), p + 1)
    [] IsK(p, "fs") -> LET f == Joined(p + 1, <<>>) IN R(X("JoinedStr", <<L(f.ts)>>), AfterK(f.p, "fe"))
    [] Is(p, "(") -> IF Is(p + 1, "yield") THEN LET e == E("yield", p + 1) IN R(e.t, After(e.p, ")")) ELSE Inside(p + 1, ")", "Tuple", "GeneratorExp")
    [] Is(p, "[") -> Inside(p + 1, "]", "List", "ListComp")
    [] Is(p, "{") -> IF Is(p + 1, "}") THEN R(X("Dict", <<L(<<>>), L(<<>>)>>), p + 2)
                     ELSE IF Is(p + 1, "**") THEN DictItems(p + 1, <<>>, <<>>)
                     ELSE LET e == E("star", p + 1) IN
                          IF ~Is(p + 1, "*") /\ Is(e.p, ":") THEN DictFrom(p + 1, e, <<>>, <<>>) ELSE InsideFrom(p + 1, e, "}", "Set", "SetComp")
    [] OTHER -> Bad

\* ---- parameters ------------------------------------------------------------------------------------------
NoArgs == Y("arguments", <<L(<<>>), L(<<>>), Nil, L(<<>>), L(<<>>), Nil, L(<<>>)>>)
ParamsFrom(p0, close, ann) ==
  LET RECURSIVE go(_, _, _)
      anno(q, star) == IF ann /\ Is(q, ":") THEN (IF star /\ Is(q + 1, "*") THEN E("star", q + 1) ELSE E("tern", q + 1)) ELSE R(Nil, q)
      app(a, i, x) == SetC(a, i, L(Append(a.c[i].c, x)))
      next(q, a, kw) == IF Is(q, ",") THEN go(q + 1, a, kw) ELSE R(a, q)
      go(p, a, kw) ==
        IF Is(p, close) THEN R(a, p)
        ELSE IF Is(p, "/") THEN next(p + 1, SetC(SetC(a, 1, a.c[2]), 2, L(<<>>)), kw)
        ELSE IF Is(p, "**") THEN LET n == anno(p + 2, FALSE) IN IF IsName(p + 1) THEN next(n.p, SetC(a, 6, X("arg", <<IdAt(p + 1), n.t, Nil>>)), kw) ELSE Bad
        ELSE IF Is(p, "*") /\ Is(p + 1, ",") THEN go(p + 2, a, TRUE)
        ELSE IF Is(p, "*") THEN LET n == anno(p + 2, TRUE) IN IF IsName(p + 1) THEN next(n.p, SetC(a, 3, X("arg", <<IdAt(p + 1), n.t, Nil>>)), TRUE) ELSE Bad
        ELSE IF ~IsName(p) THEN Bad
        ELSE LET n == anno(p + 1, FALSE)
                 d == IF Is(n.p, "=") THEN E("tern", n.p + 1) ELSE R(Nil, n.p)
                 x == X("arg", <<IdAt(p), n.t, Nil>>)
             IN IF kw THEN next(d.p, app(app(a, 4, x), 5, d.t), kw)
                ELSE next(d.p, IF Is(n.p, "=") THEN app(app(a, 2, x), 7, d.t) ELSE IF a.c[7].c # <<>> THEN Y("!", <<>>) ELSE app(a, 2, x), kw)
  IN go(p0, NoArgs, FALSE)
Params(p, close, ann) == ParamsFrom(p, close, ann)
TypeParams(p0) ==
  LET RECURSIVE go(_, _)
      go(p, acc) ==
        LET b == IF Is(p + 1, ":") THEN E("tern", p + 2) ELSE R(Nil, p + 1)
            x == IF Is(p, "**") THEN R(X("ParamSpec", <<IdAt(p + 1)>>), p + 2)
                 ELSE IF Is(p, "*") THEN R(X("TypeVarTuple", <<IdAt(p + 1)>>), p + 2)
                 ELSE IF IsName(p) THEN R(X("TypeVar", <<IdAt(p), b.t>>), b.p) ELSE Bad
        IN IF Is(x.p, ",") /\ ~Is(x.p + 1, "]") THEN go(x.p + 1, Append(acc, x.t)) ELSE R(L(Append(acc, x.t)), After(IF Is(x.p, ",") THEN x.p + 1 ELSE x.p, "]"))
  IN IF Is(p0, "[") THEN go(p0 + 1, <<>>) ELSE R(L(<<>>), p0)
E(r, p) == CASE r = "bin" -> Bin(p, 1) [] r = "prim" -> Prim(p) [] r = "atom" -> Atom(p) [] r = "unary" -> Unary(p) [] r = "power" -> Power(p)
             [] r = "tern" -> Ternary(p) [] r = "or" -> OrE(p) [] r = "and" -> AndE(p) [] r = "not" -> NotE(p) [] r = "cmp" -> Cmp(p)
             [] r = "named" -> Named(p) [] r = "star" -> StarE(p) [] r = "exprs" -> Exprs(p) [] r = "yield" -> YieldE(p) [] r = "targets" -> Targets(p)

\* ---- patterns --------------------------------------------------------------------------------------------
RECURSIVE P(_, _), OrPat(_, _), PatSeq(_, _, _), DottedMore(_)
Pat(p) == LET o == OrPat(p, <<>>) IN
          IF Is(o.p, "as") THEN (IF IsName(o.p + 1) THEN R(X("MatchAs", <<o.t, IdAt(o.p + 1)>>), o.p + 2) ELSE Bad) ELSE o
OrPat(p, acc) == LET e == P("closed", p) IN
                 IF Is(e.p, "|") THEN OrPat(e.p + 1, Append(acc, e.t))
                 ELSE IF acc = <<>> THEN e ELSE R(X("MatchOr", <<L(Append(acc, e.t))>>), e.p)
StarPat(p) == IF Is(p, "*") THEN (IF IsName(p + 1) THEN R(X("MatchStar", <<IF Is(p + 1, "_") THEN Nil ELSE IdAt(p + 1)>>), p + 2) ELSE Bad) ELSE P("pat", p)
PatSeq(p, close, acc) ==
  IF IsAny(p, close) THEN [ts |-> acc, comma |-> TRUE, p |-> p]
  ELSE LET e == P("star", p) IN IF Is(e.p, ",") THEN PatSeq(e.p + 1, close, Append(acc, e.t)) ELSE [ts |-> Append(acc, e.t), comma |-> FALSE, p |-> e.p]
OpenPat(p) == LET s == PatSeq(p, {":", "if"}, <<>>) IN
              IF s.ts = <<>> THEN Bad ELSE IF Len(s.ts) = 1 /\ ~s.comma /\ s.ts[1].k # "MatchStar" THEN R(s.ts[1], s.p) ELSE R(X("MatchSequence", <<L(s.ts)>>), s.p)
SignedNum(p) == IF Is(p, "-") THEN R(X("UnaryOp", <<Op("USub"), Tok(p + 1).v>>), AfterK(p + 1, "c")) ELSE R(Tok(p).v, AfterK(p, "c"))
NumPat(p) == LET a == SignedNum(p) IN
             IF IsAny(a.p, {"+", "-"}) THEN R(X("BinOp", <<a.t, Op(IF Is(a.p, "+") THEN "Add" ELSE "Sub"), Tok(a.p + 1).v>>), AfterK(a.p + 1, "c")) ELSE a
DottedMore(e) == IF Is(e.p, ".") THEN (IF IsName(e.p + 1) THEN DottedMore(R(X("Attribute", <<e.t, IdAt(e.p + 1)>>), e.p + 2)) ELSE Bad) ELSE e
PatArgs(p0) ==
  LET RECURSIVE go(_, _, _, _)
      go(p, ps, ks, kps) ==
        LET n(e, a, b, c) == IF Is(e, ",") THEN go(e + 1, a, b, c) ELSE [ps |-> a, ks |-> b, kps |-> c, p |-> e] IN
        IF Is(p, ")") \/ IsK(p, "end") THEN [ps |-> ps, ks |-> ks, kps |-> kps, p |-> p]
        ELSE IF IsName(p) /\ Is(p + 1, "=") THEN LET e == P("pat", p + 2) IN n(e.p, ps, Append(ks, IdAt(p)), Append(kps, e.t))
        ELSE LET e == P("pat", p) IN n(e.p, Append(ps, e.t), ks, kps)
  IN go(p0, <<>>, <<>>, <<>>)
MapPat(p0) ==
  LET RECURSIVE go(_, _, _)
      go(p, ks, ps) ==
        LET k == IF Is(p, "-") \/ IsLit(p) THEN NumPat(p) ELSE IF IsAny(p, {"True", "False", "None"}) THEN E("atom", p) ELSE DottedMore(E("atom", p))
            v == P("pat", After(k.p, ":"))
        IN IF Is(p, "}") THEN R(X("MatchMapping", <<L(ks), L(ps), Nil>>), p + 1)
           ELSE IF Is(p, "**") THEN R(X("MatchMapping", <<L(ks), L(ps), IdAt(p + 1)>>), After(IF Is(p + 2, ",") THEN p + 3 ELSE p + 2, "}"))
           ELSE IF Is(v.p, ",") THEN go(v.p + 1, Append(ks, k.t), Append(ps, v.t))
           ELSE R(X("MatchMapping", <<L(Append(ks, k.t)), L(Append(ps, v.t)), Nil>>), After(v.p, "}"))
  IN go(p0, <<>>, <<>>)
Closed(p) ==
  CASE IsAny(p, {"True", "False", "None"}) -> R(X("MatchSingleton", <<IF Is(p, "None") THEN Nil ELSE Lit(Tok(p).s)>>), p + 1)
    [] IsLit(p) \/ Is(p, "-") -> LET e == NumPat(p) IN R(X("MatchValue", <<e.t>>), e.p)
    [] IsK(p, "fs") -> LET e == E("atom", p) IN R(X("MatchValue", <<e.t>>), e.p)
    [] Is(p, "[") -> LET s == PatSeq(p + 1, {"]"}, <<>>) IN R(X("MatchSequence", <<L(s.ts)>>), After(s.p, "]"))
    [] Is(p, "(") -> LET s == PatSeq(p + 1, {")"}, <<>>) IN
                     IF Len(s.ts) = 1 /\ ~s.comma /\ s.ts[1].k # "MatchStar" THEN R(s.ts[1], After(s.p, ")")) ELSE R(X("MatchSequence", <<L(s.ts)>>), After(s.p, ")"))
    [] Is(p, "{") -> MapPat(p + 1)
    [] IsName(p) -> LET d == DottedMore(R(NameAt(p), p + 1)) IN
                    IF Is(d.p, "(") THEN LET a == PatArgs(d.p + 1) IN R(X("MatchClass", <<d.t, L(a.ps), L(a.ks), L(a.kps)>>), After(a.p, ")"))
                    ELSE IF d.p > p + 1 THEN R(X("MatchValue", <<d.t>>), d.p)
                    ELSE R(X("MatchAs", <<Nil, IF Is(p, "_") THEN Nil ELSE IdAt(p)>>), p + 1)
    [] OTHER -> Bad
P(r, p) == CASE r = "pat" -> Pat(p) [] r = "closed" -> Closed(p) [] r = "star" -> StarPat(p)

\* ---- statements ------------------------------------------------------------------------------------------
RECURSIVE S(_, _), Stmts(_, _), Simple(_, _), Decorated(_, _), IfRest(_), WithItems(_, _), Handlers(_, _, _), Cases(_, _), NameSeq(_, _), Aliases(_, _), Dotted(_, _), AssignMore(_, _)
NameSeq(p, acc) == IF ~IsName(p) THEN R(Nil, Fail) ELSE IF Is(p + 1, ",") THEN NameSeq(p + 2, Append(acc, IdAt(p))) ELSE R(L(Append(acc, IdAt(p))), p + 1)
Dotted(p, s) == IF ~IsName(p) THEN R(Nil, Fail) ELSE IF Is(p + 1, ".") THEN Dotted(p + 2, s \o Tok(p).s \o ".") ELSE R(Id(s \o Tok(p).s), p + 1)
Aliases(p, acc) == LET n == IF Is(p, "*") THEN R(Id("*"), p + 1) ELSE Dotted(p, "")
                       a == IF Is(n.p, "as") THEN R(IdAt(n.p + 1), n.p + 2) ELSE R(Nil, n.p)
                       x == Append(acc, X("alias", <<n.t, a.t>>))
                   IN IF Is(a.p, ",") THEN Aliases(a.p + 1, x) ELSE R(L(x), a.p)
RECURSIVE Dots(_, _)
Dots(p, n) == IF Is(p, ".") THEN Dots(p + 1, n + 1) ELSE IF Is(p, "...") THEN Dots(p + 1, n + 3) ELSE [n |-> n, p |-> p]
AssignMore(p, acc) == LET e == E("exprs", p) IN IF Is(e.p, "=") THEN AssignMore(e.p + 1, Append(acc, e.t)) ELSE R(X("Assign", <<L(acc), e.t, Nil>>), e.p)
Simple1(p) ==
  LET kw(k) == Is(p, k)  e1 == E("tern", p + 1) IN
  CASE kw("pass") -> R(X("Pass", <<>>), p + 1) [] kw("break") -> R(X("Break", <<>>), p + 1) [] kw("continue") -> R(X("Continue", <<>>), p + 1)
    [] kw("return") -> IF IsK(p + 1, "nl") THEN R(X("Return", <<Nil>>), p + 1) ELSE LET e == E("exprs", p + 1) IN R(X("Return", <<e.t>>), e.p)
    [] kw("raise") -> IF IsK(p + 1, "nl") THEN R(X("Raise", <<Nil, Nil>>), p + 1)
                      ELSE LET c == IF Is(e1.p, "from") THEN E("tern", e1.p + 1) ELSE R(Nil, e1.p) IN R(X("Raise", <<e1.t, c.t>>), c.p)
    [] kw("global") -> LET n == NameSeq(p + 1, <<>>) IN R(X("Global", <<n.t>>), n.p)
    [] kw("nonlocal") -> LET n == NameSeq(p + 1, <<>>) IN R(X("Nonlocal", <<n.t>>), n.p)
    [] kw("del") -> LET s == StarSeq(p + 1, <<>>) IN R(X("Delete", <<L(s.ts)>>), s.p)
    [] kw("assert") -> LET m == IF Is(e1.p, ",") THEN E("tern", e1.p + 1) ELSE R(Nil, e1.p) IN R(X("Assert", <<e1.t, m.t>>), m.p)
    [] kw("import") -> LET a == Aliases(p + 1, <<>>) IN R(X("Import", <<a.t>>), a.p)
    [] kw("from") -> LET d == Dots(p + 1, 0)
                         m == IF Is(d.p, "import") THEN R(Nil, d.p) ELSE Dotted(d.p, "")
                         q == After(m.p, "import")
                         a == Aliases(IF Is(q, "(") THEN q + 1 ELSE q, <<>>)
                     IN R(X("ImportFrom", <<m.t, a.t, Lit("int:" \o ToString(d.n))>>), IF Is(q, "(") THEN After(IF Is(a.p, ",") THEN a.p + 1 ELSE a.p, ")") ELSE a.p)
    [] kw("type") /\ IsName(p + 1) /\ IsAny(p + 2, {"=", "["}) ->
                     LET t == TypeParams(p + 2)  e == E("tern", After(t.p, "=")) IN R(X("TypeAlias", <<NameAt(p + 1), t.t, e.t>>), e.p)
    [] OTHER ->
       LET e == E("exprs", p) IN
       IF Is(e.p, "=") THEN AssignMore(e.p + 1, <<e.t>>)
       ELSE IF IsAny(e.p, DOMAIN AugOps) THEN LET v == E("exprs", e.p + 1) IN R(X("AugAssign", <<e.t, Op(AugOps[Tok(e.p).s]), v.t>>), v.p)
       ELSE IF Is(e.p, ":") THEN LET a == E("tern", e.p + 1)
                                     v == IF Is(a.p, "=") THEN E("exprs", a.p + 1) ELSE R(Nil, a.p)
                                 IN R(X("AnnAssign", <<e.t, a.t, v.t, Lit(IF IsName(p) /\ e.p = p + 1 THEN "int:1" ELSE "int:0")>>), v.p)
       ELSE R(X("Expr", <<e.t>>), e.p)
Simple(p, acc) == LET s == Simple1(p)  q == IF Is(s.p, ";") THEN s.p + 1 ELSE s.p IN
                  IF IsK(q, "nl") THEN [ts |-> Append(acc, s.t), p |-> q + 1]
                  ELSE IF Is(s.p, ";") THEN Simple(q, Append(acc, s.t)) ELSE [ts |-> <<>>, p |-> Fail]
Block(p) == LET q == After(p, ":") IN
            IF IsK(q, "nl") /\ IsK(q + 1, "in") THEN LET s == Stmts(q + 2, <<>>) IN R(L(s.ts), AfterK(s.p, "out"))
            ELSE LET s == Simple(q, <<>>) IN R(L(s.ts), s.p)
Else(p, word) == IF Is(p, word) THEN S("block", p + 1) ELSE R(L(<<>>), p)
IfRest(p) == IF Is(p, "elif") THEN LET c == E("named", p + 1)  b == S("block", c.p)  r == IfRest(b.p) IN R(L(<<X("If", <<c.t, b.t, r.t>>)>>), r.p) ELSE Else(p, "else")
WithItems(p, acc) == LET e == E("tern", p)
                         v == IF Is(e.p, "as") THEN (LET t == E("bin", e.p + 1) IN t) ELSE R(Nil, e.p)
                         x == Append(acc, Y("withitem", <<e.t, v.t>>))
                     IN IF Is(v.p, ",") /\ ~Is(v.p + 1, ")") THEN WithItems(v.p + 1, x) ELSE R(L(x), v.p)
WithS2(p, kind) == LET par == WithItems(p + 1, <<>>)
                       q == After(IF Is(par.p, ",") THEN par.p + 1 ELSE par.p, ")")
                       i == IF Is(p, "(") /\ Is(q, ":") THEN R(par.t, q) ELSE WithItems(p, <<>>)
                       b == S("block", i.p)
                   IN R(X(kind, <<i.t, b.t, Nil>>), b.p)
Handlers(p, acc, star) ==
  IF ~Is(p, "except") THEN [ts |-> acc, star |-> star, p |-> p]
  ELSE LET s == Is(p + 1, "*")  q == IF s THEN p + 2 ELSE p + 1
           e == IF Is(q, ":") THEN R(Nil, q) ELSE E("tern", q)
           n == IF Is(e.p, "as") THEN R(IdAt(e.p + 1), e.p + 2) ELSE R(Nil, e.p)
           b == S("block", n.p)
       IN IF acc # <<>> /\ s # star THEN [ts |-> acc, star |-> star, p |-> Fail]
          ELSE Handlers(b.p, Append(acc, X("ExceptHandler", <<e.t, n.t, b.t>>)), s)
Cases(p, acc) == IF ~Is(p, "case") THEN R(L(acc), p)
                 ELSE LET a == OpenPat(p + 1)
                          g == IF Is(a.p, "if") THEN E("named", a.p + 1) ELSE R(Nil, a.p)
                          b == S("block", g.p)
                      IN Cases(b.p, Append(acc, Y("match_case", <<a.t, g.t, b.t>>)))
Def(p, decos, kind) == LET tp == TypeParams(p + 2)
                           a == Params(After(tp.p, "("), ")", TRUE)
                           q == After(a.p, ")")
                           r == IF Is(q, "->") THEN E("exprs", q + 1) ELSE R(Nil, q)
                           b == S("block", r.p)
                       IN R(X(kind, <<IdAt(p + 1), a.t, b.t, L(decos), r.t, Nil, tp.t>>), b.p)
Class(p, decos) == LET tp == TypeParams(p + 2)
                       a == IF Is(tp.p, "(") THEN Args(tp.p + 1, <<>>, <<>>) ELSE [as |-> <<>>, ks |-> <<>>, p |-> tp.p]
                       b == S("block", IF Is(tp.p, "(") THEN After(a.p, ")") ELSE a.p)
                   IN R(X("ClassDef", <<IdAt(p + 1), L(a.as), L(a.ks), b.t, L(decos), tp.t>>), b.p)
Decorated(p, acc) ==
  IF Is(p, "@") THEN LET e == E("named", p + 1) IN Decorated(AfterK(e.p, "nl"), Append(acc, e.t))
  ELSE CASE Is(p, "def") -> Def(p, acc, "FunctionDef") [] Is(p, "async") /\ Is(p + 1, "def") -> Def(p + 1, acc, "AsyncFunctionDef")
         [] Is(p, "class") -> Class(p, acc) [] OTHER -> Bad
ForS(p, kind) == LET t == E("targets", p + 1)  i == E("exprs", After(t.p, "in"))  b == S("block", i.p)  e == Else(b.p, "else") IN R(X(kind, <<t.t, i.t, b.t, e.t, Nil>>), e.p)
MatchAhead(p) == /\ Is(p, "match") /\ ~IsAny(p + 1, {"=", ".", ":", ","}) /\ ~IsK(p + 1, "nl")
                 /\ LET e == E("exprs", p + 1) IN Is(e.p, ":") /\ IsK(e.p + 1, "nl") /\ IsK(e.p + 2, "in")
IsCompound(p) == IsAny(p, {"if", "while", "for", "try", "with", "def", "class", "async", "@"}) \/ MatchAhead(p)
Compound(p) ==
  CASE Is(p, "if") -> LET c == E("named", p + 1)  b == S("block", c.p)  r == IfRest(b.p) IN R(X("If", <<c.t, b.t, r.t>>), r.p)
    [] Is(p, "while") -> LET c == E("named", p + 1)  b == S("block", c.p)  r == Else(b.p, "else") IN R(X("While", <<c.t, b.t, r.t>>), r.p)
    [] Is(p, "for") -> ForS(p, "For")
    [] Is(p, "with") -> WithS2(p + 1, "With")
    [] Is(p, "async") /\ Is(p + 1, "for") -> ForS(p + 1, "AsyncFor")
    [] Is(p, "async") /\ Is(p + 1, "with") -> WithS2(p + 2, "AsyncWith")
    [] Is(p, "try") -> LET b == S("block", p + 1)  h == Handlers(b.p, <<>>, FALSE)  e == Else(h.p, "else")  f == Else(e.p, "finally")
                       IN R(X(IF h.star THEN "TryStar" ELSE "Try", <<b.t, L(h.ts), e.t, f.t>>), f.p)
    [] Is(p, "match") -> LET e == E("exprs", p + 1)  c == Cases(e.p + 3, <<>>) IN R(X("Match", <<e.t, c.t>>), AfterK(c.p, "out"))
    [] OTHER -> Decorated(p, <<>>)
Stmts(p, acc) == IF IsK(p, "out") \/ IsK(p, "end") THEN [ts |-> acc, p |-> p]
                 ELSE IF IsCompound(p) THEN LET s == Compound(p) IN Stmts(s.p, Append(acc, s.t))
                 ELSE LET s == Simple(p, <<>>) IN Stmts(s.p, acc \o s.ts)
S(r, p) == Block(p)

\* ---- reading a text ----------------------------------------------------------------------------------------
Init == id \in 1..N /\ in = In(id) /\ pos = 1 /\ done = <<>> /\ result = "reading"
Read == /\ result = "reading" /\ pos <= Len(in.toks)
        /\ LET s == IF IsCompound(pos) THEN (LET c == Compound(pos) IN [ts |-> <<c.t>>, p |-> c.p]) ELSE Simple(pos, <<>>)
           IN pos' = s.p /\ done' = done \o s.ts
        /\ UNCHANGED <<id, in, result>>
Verdict == /\ result = "reading" /\ pos > Len(in.toks)
           /\ result' = (IF pos >= Fail THEN "broken" ELSE IF L(done) = in.tree THEN "same" ELSE "differs")
           /\ UNCHANGED <<id, in, pos, done>>
Next == Read \/ Verdict
Forward == [][pos' >= pos]_vars
Report == result # "reading" => PrintT("@" \o ToJson([id |-> id, result |-> result, done |-> IF result = "same" THEN <<>> ELSE done]))
J == JsonDeserialize("input.json")
JIn(i) == J[i]
JN == Len(J)
=============================================================================
