--------------------------- MODULE ImportCacheMC ---------------------------
(* Bounded-exhaustive histories: every sequence of Len operations between a first
   import and a last one, over a few dependency graphs and kinds of use.       *)
EXTENDS ImportCache

CONSTANTS HistLen
U(f, k) == [f |-> f, k |-> k]
F(m, d) == [mt |-> m, deps |-> d]
Graphs == <<
  [a |-> F(1, <<U("b", "abs")>>), b |-> F(2, <<U("c", "abs")>>), c |-> F(3, <<>>)],
  [a |-> F(3, <<U("b", "rel")>>), b |-> F(2, <<U("c", "rel")>>), c |-> F(1, <<>>)],
  [a |-> F(2, <<U("b", "abs"), U("c", "ast")>>), b |-> F(3, <<U("c", "ast")>>), c |-> F(1, <<>>)],
  [a |-> F(1, <<U("b", "ast"), U("c", "ast")>>), b |-> F(1, <<>>), c |-> F(1, <<>>)],
  [a |-> F(1, <<U("b", "src"), U("c", "src")>>), b |-> F(2, <<U("c", "src")>>), c |-> F(1, <<>>)],
  [a |-> F(1, <<U("b", "src"), U("c", "abs")>>), b |-> F(1, <<U("c", "phase")>>), c |-> F(1, <<>>)],
  [a |-> F(3, <<U("b", "phase")>>), b |-> F(1, <<U("c", "rel")>>), c |-> F(2, <<>>)],
  [a |-> F(1, <<U("c", "rel"), U("b", "phase")>>), b |-> F(2, <<U("c", "phase")>>), c |-> F(3, <<>>)] >>

Imp(f, w, k) == [o |-> "import", f |-> f, write |-> w, kill |-> k, how |-> "", deps |-> <<>>]
Env(o, f) == [o |-> o, f |-> f, write |-> TRUE, kill |-> 0, how |-> "", deps |-> <<>>]
Ops == <<Imp("a", TRUE, 0), Imp("a", FALSE, 0), Imp("b", TRUE, 0), Imp("a", TRUE, 1), Imp("a", TRUE, 2),
         Env("edit", "a"), Env("edit", "b"), Env("edit", "c"), Env("touch", "c"),
         [Env("deps", "a") EXCEPT !.deps = <<U("c", "abs")>>], [Env("deps", "b") EXCEPT !.deps = <<>>], [Env("deps", "b") EXCEPT !.deps = <<U("c", "phase")>>],
         [Env("break", "c") EXCEPT !.how = "syntax"], [Env("break", "c") EXCEPT !.how = "raise"],
         [Env("break", "b") EXCEPT !.how = "raise"], Env("mend", "c"), Env("mend", "b"), Env("rm", "c"),
         [Env("old", "a") EXCEPT !.deps = <<U("c", "abs")>>], [Env("old", "b") EXCEPT !.deps = <<U("c", "ast")>>], Env("old", "c"),
         Env("rmpyc", "a"), Env("rmpyc", "b"), Env("badpyc", "a"), Env("rmdep", "a"), Env("rmdep", "b"), Env("baddep", "b")>>
N == Len(Ops)
RECURSIVE Pow(_), Digits(_, _)
Pow(k) == IF k = 0 THEN 1 ELSE N * Pow(k - 1)
Digits(x, k) == IF k = 0 THEN <<>> ELSE <<Ops[(x % N) + 1]>> \o Digits(x \div N, k - 1)
\* consecutive indices cover all graphs
MCNum == Len(Graphs) * Pow(HistLen)
MCIn(i) == [files |-> Graphs[((i - 1) % Len(Graphs)) + 1],
            hist |-> <<Imp("a", TRUE, 0)>> \o Digits((i - 1) \div Len(Graphs), HistLen) \o <<Imp("a", TRUE, 0)>>]
Inputs == JsonDeserialize("input.json")
JsonIn(i) == Inputs[i]
JsonNum == Len(Inputs)
=============================================================================
