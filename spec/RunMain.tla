------------------------------ MODULE RunMain ------------------------------
(* Running a main program (C24), as Python does it and as the macro-enabled command line must.
   An invocation names a script file, or a module or package; the parents are imported, the main file is
   found, compiled (macro-imports and phases act now), and run under the name "__main__".
   Frames are files being executed. The file of the main program contains a program; it is a program too
   when it is imported under its own name. Other files only log themselves.                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, In(_),                   \* input: [script, cwd, name, cf, prog, end, self]
          Files, Packages, NameSpaces, Bad

VARIABLES id, in, frames, todo, loaded, started, log, out,
          byes      \* functions to call at exit
vars == <<id, in, frames, todo, loaded, started, log, out, byes>>

Drop(p, n) == SubSeq(p, n + 1, Len(p))
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Last(p) == p[Len(p)]
MAIN == <<"__main__">>

\* what an import of one name finds in a directory (files are paths without the suffix)
FindIn(dir, x) == LET d == Append(dir, x) IN
  IF d \in Packages THEN [kind |-> "pkg", file |-> Append(d, "__init__"), dir |-> d]
  ELSE IF d \in Files THEN [kind |-> "mod", file |-> d]
  ELSE IF d \in NameSpaces THEN [kind |-> "ns", dir |-> d]
  ELSE [kind |-> "none"]
RECURSIVE Find(_, _)
Find(dir, name) == LET r == FindIn(dir, Head(name)) IN
  IF Len(name) = 1 THEN r ELSE IF r.kind \in {"pkg", "ns"} THEN Find(r.dir, Tail(name)) ELSE [kind |-> "none"]

Path0 == IF in.script # <<>> THEN Parent(in.script) ELSE in.cwd
PkgOf(file, name) == IF Last(file) = "__init__" /\ Last(name) # "__init__" THEN name ELSE Parent(name)
\* the file the invocation is about, whether or not it can be run
Target == IF in.script # <<>> THEN in.script
          ELSE LET r == Find(in.cwd, in.name)  m == Find(in.cwd, Append(in.name, "__main__")) IN
               IF r.kind = "mod" THEN r.file ELSE IF r.kind \in {"pkg", "ns"} /\ m.kind = "mod" THEN m.file ELSE <<>>

Frame(file, name, pkg) == [file |-> file, name |-> name, pkg |-> pkg, pc |-> 0]
IsProgram(f) == f = Target
Code(f) == IF IsProgram(f) THEN <<"compile", "L">> \o (IF in.cf \in {"M", "RM", "PH", "D"} THEN <<in.cf>> ELSE <<>>) \o in.prog \o <<"L", in.end>>
           ELSE IF f \in Bad THEN <<"L", "EX">> ELSE <<"L">>

Init == /\ id \in 1..N /\ in = In(id) /\ loaded = {MAIN} /\ frames = <<>> /\ log = <<>> /\ out = "-" /\ started = FALSE /\ byes = 0
        /\ todo = IF in.script # <<>> THEN <<>> ELSE in.name

Top == frames[Len(frames)]
Base == SubSeq(frames, 1, Len(frames) - 1)
Stmt == Code(Top.file)[Top.pc + 1]
IsMain == Top.name = MAIN
Advance(fs) == LET n == Len(fs) IN [fs EXCEPT ![n].pc = @ + 1]
Line(what) == [what |-> what, file |-> Top.file, name |-> Top.name, pkg |-> Top.pkg]
LineOf(f) == [what |-> "L", file |-> f.file, name |-> f.name, pkg |-> f.pkg]

\* ---- finding the main program: its parents are imported first ----------------------
Idle == out = "-" /\ frames = <<>> /\ ~started
Refuse == out' = "refused" /\ UNCHANGED <<frames, started, todo, loaded>>
FindScript == /\ Idle /\ in.script # <<>>
              /\ IF in.script \in Files THEN started' = TRUE /\ frames' = <<Frame(in.script, MAIN, <<>>)>> /\ UNCHANGED <<todo, loaded, out>>
                 ELSE Refuse
              /\ UNCHANGED <<id, in, log, byes>>
FindModule ==
  /\ Idle /\ in.script = <<>> /\ todo # <<>>
  /\ LET whole == Append(SubSeq(in.name, 1, Len(in.name) - Len(todo)), Head(todo))
         r == Find(in.cwd, whole) IN
     IF r.kind = "none" THEN Refuse
     ELSE IF r.kind = "mod" /\ Len(todo) = 1 THEN
          started' = TRUE /\ frames' = <<Frame(r.file, MAIN, Parent(whole))>> /\ todo' = <<>> /\ UNCHANGED <<loaded, out>>
     ELSE /\ todo' = Tail(todo) /\ loaded' = loaded \cup {whole}
          /\ frames' = IF r.kind = "ns" THEN <<>> ELSE <<Frame(r.file, whole, PkgOf(r.file, whole))>>
          /\ UNCHANGED <<started, out>>
  /\ UNCHANGED <<id, in, log, byes>>
\* a package was named: its __main__ is the main program
FindMainPy ==
  /\ Idle /\ in.script = <<>> /\ todo = <<>>
  /\ LET r == Find(in.cwd, Append(in.name, "__main__")) IN
     IF r.kind = "mod" THEN started' = TRUE /\ frames' = <<Frame(r.file, MAIN, in.name)>> /\ UNCHANGED <<todo, loaded, out>>
     ELSE Refuse
  /\ UNCHANGED <<id, in, log, byes>>

\* ---- running -----------------------------------------------------------------------
Running == out = "-" /\ frames # <<>> /\ Top.pc < Len(Code(Top.file))
Raise(how) == out' = how /\ UNCHANGED <<frames, loaded>>
\* load a module that is not a program, unless it is loaded
Load(nm, file) == IF nm \in loaded THEN UNCHANGED <<loaded, log>>
                  ELSE loaded' = loaded \cup {nm} /\ log' = Append(log, LineOf(Frame(file, nm, PkgOf(file, nm))))

\* relative macro-imports go by where the file is below the search path
FilePkg == Drop(Parent(Top.file), Len(Path0))
MacsName == IF in.cf = "RM" THEN Append(FilePkg, "macs") ELSE <<"macs">>
Compile ==
  /\ Running /\ Stmt = "compile"
  /\ CASE in.cf \in {"SY", "MR"} -> Raise("error") /\ UNCHANGED log
       [] in.cf \in {"M", "RM"} ->
            IF (in.cf = "RM" /\ FilePkg = <<>>) \/ Find(Path0, MacsName).kind # "mod" THEN Raise("error") /\ UNCHANGED log
            ELSE Load(MacsName, Find(Path0, MacsName).file) /\ frames' = Advance(frames) /\ UNCHANGED out
       [] in.cf = "PH" -> log' = Append(log, [Line("phase1") EXCEPT !.pkg = <<>>, !.file = <<>>]) /\ frames' = Advance(frames) /\ UNCHANGED <<out, loaded>>
       [] OTHER -> frames' = Advance(frames) /\ UNCHANGED <<log, out, loaded>>
  /\ UNCHANGED <<id, in, todo, started, byes>>

Say == /\ Running /\ Stmt \in {"L", "G", "A", "D", "M", "RM", "PH"}
       /\ log' = CASE Stmt = "L" -> Append(log, Line("L"))
                   [] Stmt = "G" -> IF IsMain THEN Append(log, Line("guarded")) ELSE log
                   [] Stmt = "A" -> log
                   [] Stmt = "D" -> Append(log, [Line("dialect") EXCEPT !.file = <<>>])
                   [] Stmt \in {"M", "RM"} -> Append(log, [Line("macro") EXCEPT !.file = Find(Path0, MacsName).file])
                   [] Stmt = "PH" -> log \o <<[Line("phase1") EXCEPT !.pkg = <<>>, !.file = <<>>], [Line("selfmacro") EXCEPT !.file = <<>>]>>
       /\ byes' = IF Stmt = "A" THEN byes + 1 ELSE byes
       /\ frames' = Advance(frames)
       /\ UNCHANGED <<id, in, todo, loaded, started, out>>
\* import of a helper module, absolute or relative to the package
Import == /\ Running /\ Stmt \in {"H", "R"}
          /\ LET nm == IF Stmt = "H" THEN <<"helper">> ELSE Append(Top.pkg, "helper")
                 r == Find(Path0, nm) IN
             IF (Stmt = "R" /\ Top.pkg = <<>>) \/ r.kind # "mod" THEN Raise("error") /\ UNCHANGED log
             ELSE Load(nm, r.file) /\ frames' = Advance(frames) /\ UNCHANGED out
          /\ UNCHANGED <<id, in, todo, started, byes>>
\* import of the main program's own file under its own name: another module, run once
Self == /\ Running /\ Stmt = "S"
        /\ IF in.self \in loaded THEN frames' = Advance(frames) /\ UNCHANGED loaded
           ELSE LET r == Find(Path0, in.self) IN
                /\ loaded' = loaded \cup {in.self}
                /\ frames' = Append(Advance(frames), Frame(r.file, in.self, PkgOf(r.file, in.self)))
        /\ UNCHANGED <<id, in, todo, started, log, out, byes>>
\* how the program ends; only as the main program
Ending == /\ Running /\ Stmt \in {"-", "EX", "X0", "X3", "XM", "XN", "KI"}
          /\ IF Stmt = "-" \/ (Stmt # "EX" /\ ~IsMain) \/ (Stmt = "EX" /\ IsProgram(Top.file) /\ ~IsMain) THEN frames' = Advance(frames) /\ UNCHANGED <<out, loaded>>
             ELSE Raise(CASE Stmt \in {"X0", "XN"} -> "0" [] Stmt = "X3" -> "3" [] Stmt = "XM" -> "1" [] Stmt = "EX" -> "error" [] Stmt = "KI" -> "interrupt")
          /\ UNCHANGED <<id, in, todo, started, log, byes>>
Return == /\ out = "-" /\ frames # <<>> /\ Top.pc = Len(Code(Top.file))
          /\ frames' = Base
          /\ out' = IF started /\ Base = <<>> THEN "0" ELSE out
          /\ UNCHANGED <<id, in, todo, loaded, started, log, byes>>
Next == FindScript \/ FindModule \/ FindMainPy \/ Compile \/ Say \/ Import \/ Self \/ Ending \/ Return

\* ---- properties -----------------------------------------------------------------------
Done == out # "-"
Mains == {i \in 1..Len(log) : log[i].name = MAIN /\ log[i].what = "L"}
\* only the file the invocation names is ever the main program, its package as given
OneMain == \A i \in Mains : log[i].file = Target /\ log[i].pkg = (IF in.script # <<>> THEN <<>> ELSE IF Find(in.cwd, in.name).kind = "mod" THEN Parent(in.name) ELSE in.name)
\* it runs its code at most once, from start to end, and guarded code runs only there
AtMostOnce == Cardinality(Mains) <= 2
GuardedMain == \A i \in 1..Len(log) : log[i].what = "guarded" => log[i].name = MAIN
\* a parent is initialized before the program
ParentsFirst == \A i \in Mains : \A k \in 1..Len(log[i].pkg) :
   LET p == SubSeq(log[i].pkg, 1, k) IN Find(in.cwd, p).kind = "pkg" => \E h \in 1..i : log[h].name = p
\* what cannot be found runs nothing under the main name
RefusedRight == (out = "refused") => Mains = {}
StatusRight == (out \in {"0", "3"}) => started
=============================================================================
