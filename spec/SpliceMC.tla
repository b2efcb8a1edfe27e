----------------------------- MODULE SpliceMC -----------------------------
EXTENDS Splice, Json
CONSTANTS Stride, Offset
\* an alphabet of statements, parsed by the harness: [user, tmpl, loc]
A == JsonDeserialize("alphabet.json")
U == Len(A.user)  V == Len(A.tmpl)
Total == U * U * U * V * V * V * 3 * 2
D(n, k, b) == 1 + ((n \div k) % b)
Make(n) ==
  LET u == <<D(n, 1, U), D(n, U, U), D(n, U * U, U)>>
      b == U * U * U
      t == <<D(n, b, V), D(n, b * V, V), D(n, b * V * V, V)>>
      k == D(n, b * V * V * V, 3)
      ln == D(n, b * V * V * V * 3, 2)
      lu == 1 + ((u[1] + t[3]) % 3)
      lt == 1 + ((u[3] + t[1]) % 3)
      sel(s, z, m) == [i \in 1..m |-> z[s[i]]]
  IN [op |-> IF k = 1 THEN "stmts" ELSE "dialect", tag |-> "__paste_here__", loc |-> IF ln = 1 THEN "" ELSE A.loc,
      body |-> L(sel(u, A.user, lu)), tmpl |-> L(sel(t, A.tmpl, lt))]
In_(i) == Make((Offset + (i - 1) * Stride) % Total)
Count == (Total + Stride - 1) \div Stride
J == JsonDeserialize("input.json")
JIn(i) == J[i]
JN == Len(J)
Report == pc = "done" => PrintT("@" \o ToJson([id |-> id, in |-> in, out |-> out, copies |-> copies, err |-> err]))
=============================================================================
