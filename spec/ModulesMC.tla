----------------------------- MODULE ModulesMC -----------------------------
(* Every history of HistLen operations of an alphabet. *)
EXTENDS Modules
CONSTANTS HistLen
B(t, v, k, s) == [t |-> t, v |-> v, k |-> k, s |-> s, body |-> <<>>]
Ph(k, b) == [t |-> "phase", v |-> "", k |-> k, s |-> "", body |-> b]
P(d, b) == [doc |-> d, multi |-> FALSE, body |-> b]
M(d, b) == [doc |-> d, multi |-> TRUE, body |-> b]
Plain == P(1, <<B("set", "v", 5, "")>>)
Inc == P(0, <<B("set", "w", 3, ""), B("inc", "v", 0, "")>>)
Macs == P(2, <<B("set", "v", 7, ""), B("mac", "m1", 0, "v")>>)
UseM == P(0, <<B("use", "w", 1, "m")>>)
UseX == P(0, <<B("use", "w", 1, "pf.x")>>)
RunFail == P(3, <<B("set", "v", 9, ""), B("fail", "", 0, "")>>)
Two == M(4, <<Ph(1, <<B("set", "v", 2, ""), B("mac", "m1", 4, "")>>), B("self", "w", 1, "")>>)
TwoFail == M(0, <<Ph(1, <<B("mac", "m1", 4, "")>>), B("self", "w", 2, "")>>)       \* no such macro at phase 0
OneFail == M(0, <<Ph(1, <<B("mac", "m1", 4, ""), B("fail", "", 2, "")>>), B("self", "w", 1, "")>>)   \* fails when run at phase 1
ZeroFail == M(0, <<Ph(1, <<B("mac", "m1", 4, ""), B("fail", "", 1, "")>>), B("self", "w", 1, "")>>)  \* fails when run at phase 0
Three == M(0, <<Ph(1, <<B("self", "v", 1, ""), B("mac", "m2", 0, "v")>>), Ph(2, <<B("mac", "m1", 6, "")>>), B("self", "w", 2, "")>>)
Via == M(0, <<Ph(1, <<B("use", "v", 1, "pf.x"), B("mac", "m2", 0, "v")>>), B("self", "w", 2, "")>>)
Dbg == M(0, <<Ph(1, <<B("dbg", "v", 0, ""), B("mac", "m1", 0, "v")>>), B("self", "w", 1, ""), B("dbg", "v", 0, "")>>)

O(o, n) == [o |-> o, n |-> n, f |-> "", up |-> TRUE, prog |-> P(0, <<>>), form |-> "text", h |-> 0, opt |-> -1, err |-> FALSE]
Run(n, p) == [O("run", n) EXCEPT !.prog = p]
RunH(h, p) == [O("run", "") EXCEPT !.prog = p, !.h = h]
Imp(n, p) == [O("import", n) EXCEPT !.prog = p]
Rel(n, p) == [O("reload", n) EXCEPT !.prog = p]
Ops == <<
  O("create", ""), O("create", "m"), [O("create", "pk") EXCEPT !.f = "x.py"], O("create", "pk.a"), [O("create", "pk.a") EXCEPT !.up = FALSE],
  O("create", "pk.a.s"), O("create", "1x"), O("create", "pf.x"), O("create", "pk..a"),
  O("enter", "m"), O("enter", "pk.a"), O("enter", "pk.a.s"), O("enter", ""), [O("enter", "pf.x") EXCEPT !.up = FALSE], O("enter", "bad.q"),
  O("exit", ""), [O("exit", "") EXCEPT !.err = TRUE], O("rm", "m"), O("rm", "pf.x"),
  Run("", Two), Run("m", Plain), Run("m", Macs), [Run("m", Two) EXCEPT !.form = "list"], Run("pk.a.s", Two), [Run("pk.a", Three) EXCEPT !.form = "mod"], [Run("pk", Inc) EXCEPT !.form = "code"],
  RunH(1, Inc), RunH(1, OneFail), RunH(1, TwoFail), [RunH(2, Macs) EXCEPT !.form = "bytes"], RunH(1, UseM), [RunH(1, Plain) EXCEPT !.form = "bad"],
  [Run("", Dbg) EXCEPT !.opt = 1], Run("", RunFail), Run("pf.x", OneFail), Run("int", Plain),
  [O("compile", "m") EXCEPT !.prog = Two], [O("compile", "pf.x") EXCEPT !.prog = OneFail], [O("expand", "zz") EXCEPT !.prog = Via], [O("compile", "") EXCEPT !.prog = Two],
  [O("expand", "m") EXCEPT !.prog = TwoFail],
  Imp("pf.x", Macs), Imp("pf.x", Two), Imp("pf.x", OneFail), Imp("pf.x", TwoFail), Imp("pf.x", ZeroFail), Imp("pf.x", UseM), Imp("pf.y", UseX), Imp("pf.y", Via),
  Rel("pf.x", Two), Rel("pf.x", OneFail), Rel("pf.x", TwoFail), Rel("pf.x", RunFail), Rel("pf.x", Inc), Rel("pf.y", UseX) >>
N == Len(Ops)
RECURSIVE Pow(_), Digits(_, _)
Pow(k) == IF k = 0 THEN 1 ELSE N * Pow(k - 1)
Digits(x, k) == IF k = 0 THEN <<>> ELSE <<Ops[(x % N) + 1]>> \o Digits(x \div N, k - 1)
Setups == <<
  <<>>,
  <<O("create", "m"), Run("m", Macs), O("create", "pk"), O("create", "pk.a")>>,
  <<O("create", "m"), Run("m", Macs), Imp("pf.x", Two)>>,
  <<Imp("pf.x", Macs), O("create", "m"), O("enter", ""), RunH(1, Macs)>>,
  <<O("create", "pk"), O("enter", "pk.a"), O("enter", "pk.a.s"), RunH(1, Macs), Run("", Plain)>> >>
\* consecutive indices cover all setups
MCNum == Len(Setups) * Pow(HistLen)
MCIn(i) == [hist |-> Setups[((i - 1) % Len(Setups)) + 1] \o Digits((i - 1) \div Len(Setups), HistLen)]
Inputs == JsonDeserialize("input.json")
JsonIn(i) == Inputs[i]
JsonNum == Len(Inputs)
=============================================================================
