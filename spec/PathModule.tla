---------------------------- MODULE PathModule ----------------------------
(* From a source path to the name under which Python imports it (C23).
   Paths are sequences of names below a scratch root. A path as written is [abs, c] (relative ones start at the
   current directory); resolving one is a machine that goes through its components, following links.
   Then the search-path entries are resolved, the deepest one above the file is taken, and the rest of the
   path is the name. Python's own import of that name is specified separately (PyFind).            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, In(_),         \* input: [cwd, entries, query, level]
          Dirs, Files, Links, \* sets of paths; Links maps a path to the components it stands for (relative to its directory)
          HomeDir
VARIABLES id, in, pc, work, done, todo, resolved, out
vars == <<id, in, pc, work, done, todo, resolved, out>>

IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Drop(p, n) == SubSeq(p, n + 1, Len(p))

\* ---- resolving one path, component by component ------------------------------
StartOf(w, cwd) == IF w.abs THEN [at |-> <<>>, rest |-> w.c]
                   ELSE IF w.c # <<>> /\ w.c[1] = "~" THEN [at |-> HomeDir, rest |-> Tail(w.c)]
                   ELSE [at |-> cwd, rest |-> w.c]
Step(s) == LET x == Head(s.rest)  rest == Tail(s.rest)  p == Append(s.at, x) IN
  IF x \in {"", "."} THEN [s EXCEPT !.rest = rest]
  ELSE IF x = ".." THEN [at |-> Parent(s.at), rest |-> rest]
  ELSE IF p \in DOMAIN Links THEN [at |-> s.at, rest |-> Links[p] \o rest]
  ELSE [at |-> p, rest |-> rest]

Init == /\ id \in 1..N /\ in = In(id) /\ pc = "resolve" /\ resolved = <<>> /\ out = [kind |-> "-"]
        /\ todo = <<in.query>> \o in.entries
        /\ work = StartOf(in.query, in.cwd) /\ done = FALSE

Resolve == /\ pc = "resolve" /\ work.rest # <<>>
           /\ work' = Step(work) /\ UNCHANGED <<id, in, pc, done, todo, resolved, out>>
NextPath == /\ pc = "resolve" /\ work.rest = <<>>
            /\ resolved' = Append(resolved, work.at)
            /\ todo' = Tail(todo)
            /\ IF Len(todo) > 1 THEN work' = StartOf(todo[2], in.cwd) /\ pc' = pc
               ELSE pc' = "match" /\ UNCHANGED work
            /\ UNCHANGED <<id, in, done, out>>

Query == resolved[1]
Roots == {resolved[i] : i \in 2..Len(resolved)}
MatchOf(p) == {r \in Roots : IsPrefix(r, p)}
Deepest(S) == CHOOSE r \in S : \A s \in S : Len(s) <= Len(r)
\* the outcome of relativize, and of resolve_package
Rel(p) == IF MatchOf(p) = {} THEN [kind |-> "ValueError"]
          ELSE LET r == Deepest(MatchOf(p)) IN [kind |-> "ok", root |-> r, rel |-> Drop(p, Len(r))]
Pkg(p) == LET d == Rel(Parent(p)) IN
          IF d.kind # "ok" THEN d ELSE IF d.rel = <<>> THEN [kind |-> "ImportError"] ELSE d

\* ---- Python's import -----------------------------------------------------------
\* sources and packages below a directory, as the import system sees them (through links)
RECURSIVE Real(_, _)
Real(s, n) == IF n = 0 THEN <<"?">> ELSE IF s.rest = <<>> THEN s.at ELSE Real(Step(s), n - 1)
RealPath(p) == Real([at |-> <<>>, rest |-> p], 20)
IsD(p) == p = <<>> \/ p \in Dirs
IsF(p) == p \in Files
\* finding one component in a sequence of directories: [file], [pkg dir], or namespace portions
RECURSIVE FindIn(_, _, _)
FindIn(x, dirs, portions) ==
  IF dirs = <<>> THEN IF portions = <<>> THEN [kind |-> "none"] ELSE [kind |-> "ns", path |-> portions]
  ELSE LET d == RealPath(Append(Head(dirs), x))  f == RealPath(Append(Head(dirs), x \o ".py"))  i == RealPath(Append(d, "__init__.py")) IN
    IF IsD(d) /\ IsF(i) THEN [kind |-> "pkg", file |-> i, path |-> <<d>>]
    ELSE IF IsF(f) THEN [kind |-> "mod", file |-> f]
    ELSE FindIn(x, Tail(dirs), IF IsD(d) THEN Append(portions, d) ELSE portions)
RECURSIVE PyFind(_, _)
PyFind(name, dirs) ==
  LET r == FindIn(Head(name), dirs, <<>>) IN
  IF Len(name) = 1 THEN r
  ELSE IF r.kind \in {"pkg", "ns"} THEN PyFind(Tail(name), r.path) ELSE [kind |-> "none"]
\* does importing it fail before the last component is looked for?
RECURSIVE ParentMissing(_, _)
ParentMissing(name, dirs) == Len(name) > 1 /\ PyFind(SubSeq(name, 1, Len(name) - 1), dirs).kind \in {"none", "mod"}
SearchDirs == Drop(resolved, 1)

Stem(f) == SubSeq(f, 1, Len(f) - 3)
NameOf(rel) == LET l == rel[Len(rel)] IN
               IF l = "__init__.py" THEN Parent(rel) ELSE IF l \in DOMAIN in.stems THEN Append(Parent(rel), in.stems[l]) ELSE rel

\* a relative macro-import `from .mac import macros, x` of the given level, in the file of the query
MacName == LET p == Pkg(Query) IN
  IF p.kind # "ok" THEN [kind |-> "ImportError"]
  ELSE IF in.level > Len(p.rel) THEN [kind |-> "ImportError"]
  ELSE [kind |-> "ok", name |-> SubSeq(p.rel, 1, Len(p.rel) - in.level + 1) \o <<"mac">>]
Mac == LET m == MacName IN
  IF m.kind # "ok" THEN m
  ELSE LET f == PyFind(m.name, SearchDirs) IN
       IF f.kind = "none" THEN [kind |-> IF ParentMissing(m.name, SearchDirs) THEN "NoParent" ELSE "NotFound", name |-> m.name]
       ELSE [kind |-> "ok", name |-> m.name, file |-> f.file]

Finish == /\ pc = "match" /\ pc' = "done"
          /\ LET r == Rel(Query)
                 name == IF r.kind = "ok" /\ r.rel # <<>> THEN NameOf(r.rel) ELSE <<>>
             IN out' = [kind |-> "done", query |-> Query, rel |-> r, pkg |-> Pkg(Query), name |-> name,
                        found |-> IF name = <<>> THEN [kind |-> "none"] ELSE PyFind(name, SearchDirs), mac |-> Mac]
          /\ UNCHANGED <<id, in, work, done, todo, resolved>>
Next == Resolve \/ NextPath \/ Finish

\* ---- properties --------------------------------------------------------------------
Done == pc = "done"
\* no link is left in a resolved path, and nothing climbs above the root
NoLinks == \A i \in 1..Len(resolved) : \A k \in 1..Len(resolved[i]) : SubSeq(resolved[i], 1, k) \notin DOMAIN Links /\ resolved[i][k] \notin {"..", "."}
RefusedOutside == Done => (out.rel.kind = "ValueError" <=> ~\E r \in Roots : IsPrefix(r, Query))
RootAbove == (Done /\ out.rel.kind = "ok") => out.rel.root \o out.rel.rel = Query /\ out.rel.root \in Roots
\* the name resolves back to the same file, unless another entry has something of the same first name
Shadowed(x) == \E r \in Roots \ {out.rel.root} : LET d == RealPath(Append(r, x)) IN IsD(d) \/ IsF(RealPath(Append(r, x \o ".py")))
PackagesOnly(rel) == \A k \in 1..Len(rel) - 1 : LET d == out.rel.root \o SubSeq(rel, 1, k) IN ~IsF(Append(Parent(d), d[Len(d)] \o ".py"))
RoundTrip == (Done /\ out.name # <<>> /\ IsF(Query) /\ ~Shadowed(out.name[1]) /\ PackagesOnly(out.rel.rel)) =>
   /\ out.found.kind \in {"mod", "pkg"}
   /\ out.found.file = Query \/ out.found.file = Append(Append(Parent(Query), out.name[Len(out.name)]), "__init__.py")
\* the package of a file is the name of its directory
PkgRight == Done => (out.pkg.kind = "ok" => out.pkg.root \o out.pkg.rel = Parent(Query))
=============================================================================
