----------------------------- MODULE CleanerMC -----------------------------
EXTENDS Cleaner, Json
CONSTANTS Stride, Offset
D(p) == [p |-> p, k |-> "d", t |-> <<>>]
F(p) == [p |-> p, k |-> "f", t |-> <<>>]
L(p, t) == [p |-> p, k |-> "l", t |-> t]
C == "__pycache__"
Out == <<"out">>
World == {D(<<"r">>), F(<<"r", "m.py">>), D(Out), F(<<"out", "k">>), D(<<"out", C>>), F(<<"out", C, "k.pyc">>),
          D(<<"r2">>), D(<<"r2", C>>), F(<<"r2", C, "z.pyc">>), L(<<"rl">>, <<"r">>), L(<<"dl">>, <<"nowhere">>)}
\* what may be at a place where a cache may be
NCache == 13
CacheAt(d, i) ==
  LET c == Append(d, C) IN
  CASE i = 1 -> {} [] i = 2 -> {D(c)} [] i = 3 -> {D(c), F(Append(c, "m.cpython-312.pyc"))}
    [] i = 4 -> {D(c), F(Append(c, "a b\n.pyc")), D(Append(c, "sub")), F(c \o <<"sub", "x">>)}
    [] i = 5 -> {D(c), D(Append(c, C)), F(c \o <<C, "n.pyc">>)}
    [] i = 6 -> {D(c), L(Append(c, "link"), Out), F(Append(c, "m.pyc"))}
    [] i = 7 -> {D(c), L(Append(c, "link"), <<"r", "m.py">>)}
    [] i = 8 -> {L(c, Out)}
    [] i = 9 -> {F(c)}
    [] i = 10 -> {D(c), L(Append(c, C), <<"out", C>>)}
    [] i = 11 -> {L(c, <<"nowhere">>)}
    [] i = 12 -> {L(c, <<"out", "k">>)}
    [] i = 13 -> {D(c), D(Append(c, "sub")), D(c \o <<"sub", "deep">>), L(c \o <<"sub", "deep", "l">>, <<"r">>), F(Append(c, ".hidden"))}
\* a subdirectory
NSub == 5
Sub(i) == LET a == <<"r", "a">> IN
  CASE i = 1 -> {} [] i = 2 -> {D(a), F(Append(a, "x.py"))} [] i = 3 -> {L(a, Out)} [] i = 4 -> {L(a, <<"r">>)} [] i = 5 -> {D(a), F(Append(a, C \o ".bak"))}
Deep(i, j) == IF i \notin {2, 5} THEN {} ELSE LET b == <<"r", "a", "b c">> IN
  CASE j = 1 -> {} [] j = 2 -> {D(b)} \cup CacheAt(b, 3) [] j = 3 -> {D(b)} \cup CacheAt(b, 5) [] j = 4 -> {D(b), D(Append(b, "d"))} \cup CacheAt(Append(b, "d"), 4)
Like(i) == IF i = 1 THEN {} ELSE {D(<<"r", "x" \o C>>), F(<<"r", "x" \o C, "1">>), D(<<"r", C \o "2">>), F(<<"r", C \o "2", "1.pyc">>), D(<<"r", "__PYCACHE__">>),
                                  F(<<"r", "__PYCACHE__", "1.pyc">>), D(<<"r", "pycache">>), F(<<"r", "pycache", "q.pyc">>), F(<<"r", "m.pyc">>), D(<<"r", ".git">>), D(<<"r", ".git", C>>), F(<<"r", ".git", C, "g">>)}
NRoot == 8
Root(i) == CASE i \in {1, 2, 3} -> <<"r">> [] i = 4 -> <<"rl">> [] i = 5 -> <<"r", C>> [] i = 6 -> <<"r", "m.py">> [] i = 7 -> <<"dl">> [] i = 8 -> <<"r", "a">>
NHow == 5       \* 1 2 delete, 3 dry run, 4 command line delete, 5 command line dry run
NSpec == 6
Total == NCache * NSub * NCache * 4 * 2 * NRoot * NHow * NSpec
Digit(n, k, b) == 1 + ((n \div k) % b)
Make(n) ==
  LET c1 == Digit(n, 1, NCache)  s == Digit(n, NCache, NSub)  c2 == Digit(n, NCache * NSub, NCache)
      k4 == NCache * NSub * NCache  dp == Digit(n, k4, 4)  lk == Digit(n, k4 * 4, 2)
      k5 == k4 * 8  rt == Digit(n, k5, NRoot)  how == Digit(n, k5 * NRoot, NHow)  sp == Digit(n, k5 * NRoot * NHow, NSpec)
      f == World \cup CacheAt(<<"r">>, c1) \cup Sub(s) \cup (IF s \in {2, 5} THEN CacheAt(<<"r", "a">>, c2) ELSE {}) \cup Deep(s, dp) \cup Like(lk)
      root == Root(rt)
      top == Follow(f, root, 3)
      mine == Inside(f, top)
      dirs == {e \in mine : e.k = "d" /\ \E x \in f : Parent(x.p) = e.p}
      pick(S, m) == IF S = {} THEN <<>> ELSE (CHOOSE e \in S : \A x \in S : IF m = 0 THEN Len(x.p) <= Len(e.p) ELSE Len(x.p) >= Len(e.p)).p
      dry == how \in {3, 5}
  IN [fs |-> f, root |-> root, spell |-> rt, dry |-> dry, how |-> how,
      gone |-> IF dry THEN <<>> ELSE IF sp = 2 THEN pick(mine, 0) ELSE IF sp = 3 THEN pick(mine, 1) ELSE IF sp = 4 THEN pick({e \in mine : e.k = "f"}, 1) ELSE <<>>,
      locked |-> IF dry THEN <<>> ELSE IF sp = 5 THEN pick(dirs, 0) ELSE IF sp = 6 THEN pick(dirs, 1) ELSE <<>>]
In_(i) == Make((Offset + (i - 1) * Stride) % Total)
Count == (Total + Stride - 1) \div Stride
Report == pc \in {"done", "refused", "failed"} =>
  PrintT("@" \o ToJson([id |-> id, fs |-> in.fs, root |-> in.root, spell |-> in.spell, how |-> in.how, gone |-> in.gone, locked |-> in.locked,
                        out |-> pc, listed |-> listed, after |-> fs]))
=============================================================================
