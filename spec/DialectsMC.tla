---------------------------- MODULE DialectsMC ----------------------------
EXTENDS Dialects, Json
CONSTANTS Stride, Offset
I(m, ns, v) == Tok("imp", m, ns, v, 0)
T(k, v) == Tok(k, "", <<>>, v, 0)
MI == Tok("mimp", "pk.mm", <<"x">>, "", 0)
Layouts == << <<I("pk.dm", <<"A">>, ""), T("log", "1")>>,
              <<T("doc", ""), I("pk.dm", <<"A">>, ""), I("pk.dm", <<"B">>, ""), T("log", "1")>>,
              <<I("pk.dm", <<"A", "B">>, ""), MI, T("mac", "1"), T("void", "1")>>,
              <<I(".dm", <<"B", "A">>, "comment"), T("alien", "1"), T("log", "1")>>,
              <<I("pk.dm", <<"A">>, "paren"), I("pk.dm", <<"B">>, "trail"), I("pk.dm", <<"B">>, ""), MI, T("mac", "1")>>,
              <<T("fut", ""), I("pk.dm", <<"A">>, "semi"), Tok("str", "pk.dm", <<"B">>, "", 0), T("log", "2")>>,
              <<I("mcpyrate.debug", <<"StepExpansion">>, ""), I("pk.dm", <<"A", "B">>, ""), MI, T("mac", "1")>>,
              <<I("pk.dm", <<"A">>, ""), T("log", "1"), I("mcpyrate.debug", <<"StepExpansion">>, "cont"), I("pk.dm", <<"B">>, "cont")>>,
              <<I("pk.dm", <<"B">>, ""), Tok("ifimp", "pk.dm", <<"A">>, "", 0), I("pk.dm", <<"A">>, ""), MI, T("mac", "3")>> >>
SrcB == << "NI", "SAME", "APPEND", "FRONT", "DROP", "DROPALL", "ADDF", "ADDE", "TRANS", "EMPTY", "RAISE" >>
AstB == << "NI", "SAME", "NEW", "APPEND", "ADDF", "ADDE", "DROPALL", "MAC", "NONE", "RAISE" >>
PostB == << "NI", "SAME", "APPEND", "NONE", "RAISE", "MARK" >>
Forms == << "str", "bytes", "ast", "list" >>
\* the behaviours of A and B, one dimension after the other; C passes
Total == Len(Layouts) * 4 * 11 * 11 * 10 * 10 * 6 * 6
D(n, k, b) == 1 + ((n \div k) % b)
Make(n) ==
  LET lay == D(n, 1, 9)  f == D(n, 9, 4)
      s1 == D(n, 36, 11)  s2 == D(n, 396, 11)  a1 == D(n, 4356, 10)  a2 == D(n, 43560, 10)  p1 == D(n, 435600, 6)  p2 == D(n, 2613600, 6)
      form == Forms[f]
      toks == Layouts[lay]
  IN [toks |-> IF form \in {"ast", "list"} THEN SelectSeq(toks, LAMBDA t : t.k # "alien") ELSE toks, form |-> form,
      beh |-> [A |-> [src |-> SrcB[s1], ast |-> AstB[a1], post |-> PostB[p1]], B |-> [src |-> SrcB[s2], ast |-> AstB[a2], post |-> PostB[p2]],
               C |-> [src |-> "APPEND", ast |-> "APPEND", post |-> "NI"]]]
In_(i) == Make((Offset + (i - 1) * Stride) % Total)
Count == (Total + Stride - 1) \div Stride
\* inputs of the harness
J == JsonDeserialize("input.json")
JIn(i) == J[i]
JN == Len(J)
Report == Done => PrintT("@" \o ToJson([id |-> id, toks |-> in.toks, beh |-> in.beh, form |-> in.form, log |-> log, shown |-> shown, err |-> err,
                                        c |-> Pl(c)]))
=============================================================================
