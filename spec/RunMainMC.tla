----------------------------- MODULE RunMainMC -----------------------------
EXTENDS RunMain, Json
CONSTANTS Stride, Offset
Files_ == {<<"top">>, <<"helper">>, <<"macs">>, <<"sub">>, <<"time">>, <<"my.dot">>, <<"my-script">>,
           <<"pkg", "__init__">>, <<"pkg", "__main__">>, <<"pkg", "mod">>, <<"pkg", "helper">>, <<"pkg", "macs">>,
           <<"pkg", "sub", "__init__">>, <<"pkg", "sub", "__main__">>, <<"pkg", "sub", "mod">>, <<"pkg", "sub", "macs">>,
           <<"pkg", "nomain", "__init__">>, <<"pkg", "nomain", "mod">>, <<"pkg", "nomain", "helper">>,
           <<"ns", "mod">>, <<"ns", "__main__">>, <<"ns", "macs">>, <<"ns", "helper">>, <<"nsx", "mod">>,
           <<"other", "top">>, <<"other", "helper">>, <<"other", "pk", "__init__">>, <<"other", "pk", "mod">>, <<"other", "pk", "macs">>,
           <<"bad", "__init__">>, <<"bad", "mod">>, <<"bad", "__main__">>}
Packages_ == {<<"pkg">>, <<"pkg", "sub">>, <<"pkg", "nomain">>, <<"other", "pk">>, <<"bad">>}
NameSpaces_ == {<<"ns">>, <<"nsx">>, <<"other">>}
Bad_ == {<<"bad", "__init__">>}
S(f) == [script |-> f, name |-> <<>>]
M(n) == [script |-> <<>>, name |-> n]
Scripts == << S(<<"top">>), S(<<"time">>), S(<<"my.dot">>), S(<<"my-script">>), S(<<"pkg", "__init__">>), S(<<"pkg", "__main__">>), S(<<"pkg", "mod">>),
              S(<<"pkg", "sub", "mod">>), S(<<"ns", "mod">>), S(<<"other", "top">>), S(<<"nope">>), S(<<"pkg", "nomain", "mod">>) >>
Modules == << <<"top">>, <<"my-script">>, <<"pkg">>, <<"pkg", "mod">>, <<"pkg", "sub">>, <<"pkg", "sub", "mod">>, <<"pkg", "nomain">>, <<"pkg", "nomain", "mod">>, <<"ns">>, <<"ns", "mod">>,
              <<"nsx">>, <<"nsx", "mod">>, <<"other", "top">>, <<"other", "pk", "mod">>, <<"bad">>, <<"bad", "mod">>, <<"nope">>, <<"pkg", "nope">>, <<"top", "sub">>, <<"pkg", "__main__">>,
              <<"pkg", "__init__">>, <<"pkg", "sub", "__main__">>, <<"other", "pk">>, <<"mod">>, <<"sub", "mod">>, <<"sub">>, <<"nomain">> >>
Cwds == << <<>>, <<"other">>, <<"pkg">> >>
CFs == << "-", "M", "RM", "PH", "D", "SY", "MR" >>
Stmts == << "G", "H", "R", "S", "A" >>
Ends == << "-", "EX", "X0", "X3", "XM", "XN", "KI" >>
Progs == << <<>> >> \o [i \in 1..5 |-> <<Stmts[i]>>] \o [k \in 1..25 |-> <<Stmts[1 + ((k - 1) \div 5)], Stmts[1 + ((k - 1) % 5)]>>]
NI == Len(Scripts) * 2 + Len(Modules) * 3     \* a script from two directories, a module from three
Total == NI * 7 * 31 * 7
Make(n) ==
  LET i == n % NI  cf == CFs[1 + ((n \div NI) % 7)]  prog == Progs[1 + ((n \div (NI * 7)) % 31)]  end == Ends[1 + (n \div (NI * 217))]
      inv == IF i < Len(Scripts) * 2 THEN Scripts[1 + (i % Len(Scripts))] ELSE M(Modules[1 + ((i - 2 * Len(Scripts)) % Len(Modules))])
      cwd == IF i < Len(Scripts) * 2 THEN Cwds[1 + 2 * (i \div Len(Scripts))] ELSE Cwds[1 + ((i - 2 * Len(Scripts)) \div Len(Modules))]
      r == Find(cwd, inv.name)
      self == IF inv.script # <<>> THEN <<Last(inv.script)>> ELSE IF inv.name # <<>> /\ r.kind # "mod" THEN Append(inv.name, "__main__") ELSE inv.name
      noself == self \in {<<"time">>, <<"my.dot">>} \/ (cf = "PH" /\ self = <<"my-script">>)   \* not a name phases can be compiled under
  IN [script |-> inv.script, name |-> inv.name, cwd |-> cwd, cf |-> cf, end |-> end, self |-> self, prog |-> IF noself THEN SelectSeq(prog, LAMBDA x : x # "S") ELSE prog]
In_(i) == Make((Offset + (i - 1) * Stride) % Total)
Count == (Total + Stride - 1) \div Stride
Report == Done => PrintT("@" \o ToJson([id |-> id, script |-> in.script, name |-> in.name, cwd |-> in.cwd, cf |-> in.cf, prog |-> in.prog, end |-> in.end, self |-> in.self,
                                        target |-> Target, path0 |-> Path0, log |-> log, out |-> out, byes |-> byes]))
W == PrintT("@" \o ToJson([files |-> Files_]))
ASSUME W
=============================================================================
