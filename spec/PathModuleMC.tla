--------------------------- MODULE PathModuleMC ---------------------------
EXTENDS PathModule, Json
CONSTANTS Stride, Offset
Dirs_ == {<<"a">>, <<"a", "p">>, <<"a", "p", "q">>, <<"a", "n">>, <<"ab">>, <<"ab", "p">>, <<"h">>, <<"h", "p">>, <<"a", "p", "deep">>, <<"a", "p", "deep", "er">>, <<"a", "pq">>, <<"a", "A">>}
Files_ == {<<"a", "m.py">>, <<"a", "p", "__init__.py">>, <<"a", "p", "m.py">>, <<"a", "p", "mac.py">>, <<"a", "p", "q", "__init__.py">>, <<"a", "p", "q", "m.py">>, <<"a", "p", "q", "mac.py">>,
           <<"a", "n", "m.py">>, <<"a", "n", "mac.py">>, <<"ab", "m.py">>, <<"ab", "mac.py">>, <<"ab", "p", "m.py">>, <<"ab", "p", "__init__.py">>, <<"h", "p", "m.py">>, <<"h", "p", "mac.py">>, <<"m.py">>,
           <<"a", "p", "deep", "er", "m.py">>, <<"a", "p", "deep", "er", "__init__.py">>, <<"a", "pq", "m.py">>, <<"a", "pq", "mac.py">>, <<"a", "q.py">>, <<"a", "A", "m.py">>}
Links_ == (<<"lnk">> :> <<"a", "p">>) @@ (<<"a", "l">> :> <<"..", "ab">>) @@ (<<"a", "p", "fl.py">> :> <<"..", "m.py">>) @@ (<<"abs">> :> <<".", "lnk", "q">>)
HomeDir_ == <<"h">>
Stems == [m \in {"m.py", "mac.py", "q.py", "fl.py"} |-> IF m = "m.py" THEN "m" ELSE IF m = "mac.py" THEN "mac" ELSE IF m = "q.py" THEN "q" ELSE "fl"]
A(c) == [abs |-> TRUE, c |-> c]
R(c) == [abs |-> FALSE, c |-> c]
Cwds == << <<>>, <<"a">>, <<"ab", "p">> >>
Entries == << A(<<"a">>), A(<<"ab">>), A(<<"a", "p">>), A(<<"a", "">>), R(<<>>), R(<<".">>), R(<<"..">>), A(<<"lnk">>), A(<<"a", "..", "ab">>), A(<<"abs">>), A(<<"a", "nope">>), A(<<>>),
              A(<<"a", "l", "p", "..">>), A(<<"a", "p", "deep">>), R(<<"p">>), A(<<"h">>), A(<<"a", "p", "q", "..", "..", "..">>), A(<<"a", "A">>) >>
Queries == << A(<<"a", "m.py">>), A(<<"a", "p", "m.py">>), A(<<"a", "p", "__init__.py">>), A(<<"a", "p", "q", "m.py">>), A(<<"a", "p", "q", "__init__.py">>), A(<<"a", "p", "q">>), A(<<"a">>),
              A(<<"ab", "m.py">>), A(<<"ab", "p", "m.py">>), A(<<"a", "n", "m.py">>), A(<<"lnk", "m.py">>), A(<<"a", "l", "p", "m.py">>), R(<<"m.py">>), R(<<"p", "m.py">>), R(<<"..", "m.py">>), A(<<"a", "p", "fl.py">>),
              R(<<"~", "p", "m.py">>), A(<<"a", "p", "..", "p", "q", "m.py">>), A(<<"a", "p", "deep", "er", "m.py">>), A(<<"abs", "m.py">>), A(<<"a", "pq", "m.py">>), A(<<"a", "p", "new.py">>), A(<<"m.py">>), A(<<"a", "A", "m.py">>) >>
NE == Len(Entries)   NQ == Len(Queries)
Total == NQ * 3 * 2 * NE * (NE + 1) * (NE + 1)
\* nothing climbs above the scratch root
Up(w, c) == IF c = 0 /\ ~w.abs /\ w.c # <<>> /\ w.c[1] = ".." THEN [w EXCEPT !.c = Tail(w.c)] ELSE w
E(e, c) == Up(Entries[e + 1], c)
Make(n) ==
  LET q == n % NQ  c == (n \div NQ) % 3  l == (n \div (NQ * 3)) % 2  k == n \div (NQ * 6)
      e1 == k % NE  e2 == (k \div NE) % (NE + 1)  e3 == (k \div (NE * (NE + 1))) % (NE + 1)
  IN [cwd |-> Cwds[c + 1], query |-> Up(Queries[q + 1], c), level |-> l + 1, stems |-> Stems,
      entries |-> <<E(e1, c)>> \o (IF e2 = NE THEN <<>> ELSE <<E(e2, c)>>) \o (IF e3 = NE THEN <<>> ELSE <<E(e3, c)>>)]
In_(i) == Make((Offset + (i - 1) * Stride) % Total)
Count == (Total + Stride - 1) \div Stride
Report == Done => PrintT("@" \o ToJson([id |-> id, cwd |-> in.cwd, entries |-> in.entries, query |-> in.query, level |-> in.level, out |-> out]))
FS == PrintT("@" \o ToJson([dirs |-> Dirs_, files |-> Files_, links |-> {[p |-> p, t |-> Links_[p]] : p \in DOMAIN Links_}]))
ASSUME FS
=============================================================================
