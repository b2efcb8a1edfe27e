---------------------------- MODULE MacroImports ----------------------------
(* Establishing macro bindings from the import statements of a module.

   A world of importable modules is given; the client module is a sequence of
   statements at a place in (or outside of) the package hierarchy.  Each step
   processes one statement: resolve, import (loading parents first), bind,
   replace.  At the end the uses are expanded with the bindings, and the
   run-time import of the result is worked out.

   Statement: [k, lv, m, names, nest]:  k = "from" (from .. import ..), "import",
   "plain";  lv leading dots;  m dotted name as a sequence (<<>>: none);
   names sequence of [n, a] (a = "" no as-name);  nest: not at top level.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS In(_), NumIn, Stride, Offset
VARIABLES id, i, bind, loads, out, status
vars == <<id, i, bind, loads, out, status>>

\* ---- the world
Mods == {<<"a">>, <<"mod">>, <<"pkg">>, <<"pkg", "mod">>, <<"pkg", "sub">>, <<"pkg", "sub", "deep">>,
         <<"pkg", "sub", "mod">>, <<"broken">>, <<"selfm">>}
AttrKind(m, n) ==
  CASE n \in {"m", "n", "k"} -> "function"
    [] n = "v" -> "value"
    [] OTHER -> "absent"

Inp == In(id)
Prog == Inp.prog
\* The package of the client, by its place.
PkgOf(p) == CASE p = "top" -> <<>>
              [] p \in {"pkg", "pkginit"} -> <<"pkg">>
              [] p \in {"sub", "subinit"} -> <<"pkg", "sub">>
              [] OTHER -> <<"?">>       \* not found on the search path
Pkg == PkgOf(Inp.place)

ParentsOf(m) == [j \in 1..Len(m) |-> SubSeq(m, 1, j)]
Gen(ls, m) == Cardinality({j \in 1..Len(ls) : ls[j] = m})
IsLoaded(ls, m) == (m = <<"selfm">> /\ Inp.self = "selfm") \/ Gen(ls, m) > 0

\* Loading a module: its parents first, each once; stops at what is not there.
RECURSIVE LoadAll(_, _)
LoadAll(ls, ps) ==
  IF ps = <<>> THEN [ls |-> ls, ok |-> "ok"]
  ELSE LET p == Head(ps) IN
       IF IsLoaded(ls, p) THEN LoadAll(ls, Tail(ps))
       ELSE IF p \notin Mods \/ p = <<"selfm">> THEN [ls |-> ls, ok |-> "import"]
       ELSE IF p = <<"broken">> THEN [ls |-> Append(ls, p), ok |-> "ZeroDivisionError"]
       ELSE LoadAll(Append(ls, p), Tail(ps))

\* ---- one macro-import
IsMacroImport(s) == s.k = "from" /\ ~s.nest /\ s.names[1].n = "macros" /\ s.names[1].a = ""
IsSelf(s) == s.m = <<"__self__">>

\* The absolute name, or <<"!", error>>.
Resolve(s) ==
  IF s.lv > 0 /\ Pkg \in {<<>>, <<"?">>} THEN <<"!", "import">>
  ELSE IF s.m = <<>> THEN <<"!", "syntax">>
  ELSE IF IsSelf(s) THEN IF s.lv > 0 THEN <<"!", "syntax">>
                         ELSE IF Inp.self = "" THEN <<"!", "import">> ELSE <<Inp.self>>
  ELSE IF s.lv = 0 THEN s.m
  ELSE IF s.lv > Len(Pkg) THEN <<"!", "import">>
  ELSE SubSeq(Pkg, 1, Len(Pkg) - s.lv + 1) \o s.m

Local(nm) == IF nm.a = "" THEN nm.n ELSE nm.a
Unbindable(names) == \E j \in 2..Len(names) : AttrKind(<<>>, names[j].n) # "function"
Put(b, n, v) == [x \in DOMAIN b \cup {n} |-> IF x = n THEN v ELSE b[x]]
RECURSIVE BindAll(_, _, _, _)
BindAll(b, names, m, g) ==
  IF names = <<>> THEN b
  ELSE BindAll(Put(b, Local(Head(names)), [m |-> m, n |-> Head(names).n, g |-> g]), Tail(names), m, g)

Entry(k, m) == [k |-> k, m |-> m]
Fail(e) == status' = e /\ UNCHANGED <<id, i, bind, out>>
Running == status = "run" /\ i <= Len(Prog)

OrdinaryStep ==
  /\ Running /\ ~IsMacroImport(Prog[i])
  /\ out' = Append(out, Entry("same", <<>>)) /\ i' = i + 1
  /\ UNCHANGED <<id, bind, loads, status>>

MacroImportStep ==
  /\ Running /\ IsMacroImport(Prog[i])
  /\ LET s == Prog[i]
         m == Resolve(s)
     IN IF m[1] = "!" THEN Fail(m[2]) /\ UNCHANGED loads
        ELSE LET r == IF IsSelf(s) THEN [ls |-> loads, ok |-> IF m = <<"selfm">> THEN "ok" ELSE "import"]
                      ELSE LoadAll(loads, ParentsOf(m))
                 ls2 == IF r.ok = "ok" /\ Inp.reload /\ ~IsSelf(s) THEN Append(r.ls, m) ELSE r.ls
             IN /\ loads' = ls2
                /\ IF r.ok # "ok" THEN Fail(r.ok)
                   ELSE IF Unbindable(s.names) THEN Fail("import")
                   ELSE /\ bind' = BindAll(bind, Tail(s.names), m, Gen(ls2, m))
                        /\ out' = Append(out, IF IsSelf(s) THEN Entry("dummy", <<>>) ELSE Entry("import", m))
                        /\ i' = i + 1 /\ UNCHANGED <<id, status>>

DoneStep ==
  /\ status = "run" /\ i > Len(Prog) /\ status' = "ok" /\ UNCHANGED <<id, i, bind, loads, out>>

\* ---- the run-time import of the result: names bound in the namespace
RECURSIVE RunNames(_, _)
RunNames(j, ns) ==
  IF j > Len(Prog) THEN ns
  ELSE LET s == Prog[j]
           o == out[j] IN
       CASE o.k = "import" -> RunNames(j + 1, ns \cup {o.m[1]})
         [] o.k = "dummy" -> RunNames(j + 1, ns \cup {"_mcpyrate_coverage"})
         [] s.k = "plain" -> RunNames(j + 1, ns \cup {"x"})
         [] s.k = "import" -> RunNames(j + 1, ns \cup {s.m[1]})
         [] OTHER ->     \* an ordinary from-import
              IF \E q \in 1..Len(s.names) : AttrKind(<<>>, s.names[q].n) = "absent" THEN {"!"}
              ELSE RunNames(j + 1, ns \cup {Local(s.names[q]) : q \in 1..Len(s.names)})

Init == /\ id \in {j \in 1..NumIn : j % Stride = Offset}
        /\ i = 1 /\ bind = [x \in {} |-> 0] /\ loads = <<>> /\ out = <<>> /\ status = "run"
Next == OrdinaryStep \/ MacroImportStep \/ DoneStep

-----------------------------------------------------------------------------
\* Properties of the specification
Imported == UNION {IF IsMacroImport(Prog[j]) THEN {Local(Prog[j].names[q]) : q \in 2..Len(Prog[j].names)} ELSE {} : j \in 1..Len(Prog)}
ExactlyImported == status = "ok" => DOMAIN bind = Imported
\* the last import of a name wins
LastWins == status = "ok" => \A n \in DOMAIN bind :
  LET js == {j \in 1..Len(Prog) : IsMacroImport(Prog[j]) /\ \E q \in 2..Len(Prog[j].names) : Local(Prog[j].names[q]) = n}
      j == CHOOSE x \in js : \A y \in js : y <= x
  IN bind[n].m = Resolve(Prog[j])
NoMacroNameLeft == status = "ok" => \A j \in 1..Len(out) : out[j].k = "same" => ~IsMacroImport(Prog[j])
SamePlaces == status = "ok" => Len(out) = Len(Prog)
LoadedOnce == Inp.reload \/ \A j, q \in 1..Len(loads) : loads[j] = loads[q] => j = q

Report == status # "run" => PrintT("@" \o ToJson(
   [id |-> id, inp |-> Inp, status |-> status,
    bind |-> IF status = "ok" THEN [n \in DOMAIN bind |-> bind[n]] ELSE <<>>,
    loads |-> loads, out |-> IF status = "ok" THEN out ELSE <<>>,
    names |-> IF status = "ok" THEN SetToSeq(RunNames(1, {})) ELSE <<>>]))

-----------------------------------------------------------------------------
\* Bounded inputs: every pair of statements, at every place
Nm(n) == [n |-> n, a |-> ""]
As(n, a) == [n |-> n, a |-> a]
From(lv, m, names) == [k |-> "from", lv |-> lv, m |-> m, names |-> names, nest |-> FALSE]
Nested(s) == [s EXCEPT !.nest = TRUE]
Refs == {<<0, <<"a">>>>, <<0, <<"pkg", "mod">>>>, <<0, <<"pkg", "sub", "deep">>>>, <<0, <<"pkg">>>>, <<1, <<"mod">>>>, <<1, <<"sub", "deep">>>>,
         <<2, <<"mod">>>>, <<3, <<"mod">>>>, <<1, <<>>>>, <<0, <<"nope">>>>, <<0, <<"pkg", "nope">>>>, <<0, <<"broken">>>>,
         <<0, <<"__self__">>>>, <<1, <<"__self__">>>>}
NameLists == {<<Nm("macros"), Nm("m")>>, <<Nm("macros"), As("m", "n")>>, <<Nm("macros"), As("m", "n"), As("n", "m")>>,
              <<Nm("macros"), Nm("m"), As("k", "m"), Nm("n")>>, <<Nm("macros")>>, <<Nm("macros"), Nm("m"), Nm("zz")>>,
              <<Nm("macros"), Nm("v")>>}
Stmts == {From(r[1], r[2], ns) : r \in Refs, ns \in NameLists}
   \cup {From(0, <<"a">>, <<Nm("m"), Nm("macros")>>), From(0, <<"a">>, <<As("macros", "z"), Nm("m")>>), From(0, <<"a">>, <<Nm("m")>>),
         Nested(From(0, <<"a">>, <<Nm("macros"), Nm("m")>>)), Nested(From(0, <<"a">>, <<Nm("m")>>)),
         [k |-> "import", lv |-> 0, m |-> <<"pkg", "mod">>, names |-> <<>>, nest |-> FALSE],
         [k |-> "plain", lv |-> 0, m |-> <<>>, names |-> <<>>, nest |-> FALSE]}
Places == <<"top", "pkg", "pkginit", "sub", "subinit", "outside">>
SSeq == SetToSeq(Stmts)
NS == Len(SSeq)
MCNum == NS * NS * 6 * 3
MCIn(q) ==
  LET j == q - 1
      w == (j \div (NS * NS * 6)) % 3
  IN [prog |-> <<SSeq[(j % NS) + 1], SSeq[((j \div NS) % NS) + 1]>>,
      place |-> Places[((j \div (NS * NS)) % 6) + 1],
      self |-> IF w = 0 THEN "" ELSE "selfm", reload |-> w = 2]
InpJson == JsonDeserialize("input.json")
JsonIn(q) == InpJson[q]
JsonNum == Len(InpJson)
=============================================================================
