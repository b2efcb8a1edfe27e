---------------------------- MODULE ImportCache ----------------------------
(* The bytecode cache of macro-enabled imports.

   A file has a version, a modification time, a fault ("" or "syntax" or
   "raise": its macro fails when used; or "gone": there is no such file), and a
   list of the files whose macros or dialects it uses, and how: by plain
   macro-imports (absolute "abs" or relative "rel"), by dialect-imports ("ast" and
   "src": dialects that transform the tree, or the text, which is then not Python
   before that), or by macro-imports at phase 1 ("phase", where the code using them
   is expanded at phase 1 and, lifted, at phase 0).
   Next to it there may be a cached compilation (stamp, and the values its
   macros gave when it was compiled) and a cached list of its macro-imports
   (stamp, list).  Both caches may be missing, or damaged ("bad").

   A history is a sequence of operations: the environment changes a file or a
   cache, or a new process imports a module.  The import is done step by step, as
   the loader does: stat the file and all its macro-dependencies; use the cached
   compilation if its stamp is the latest of their times; otherwise import what
   the macros come from, expand (calling the macros), compile and cache; and then
   run the module.  The process may be killed at a given macro call.

   A change usually gives a file a time later than all before; it may also be
   replaced by an older file, as when a backup is restored.  As there is only one
   stamp, that can go unnoticed where something else is the latest both before and
   after; such replacements are left out (skip).

   What a module gives when run is Val: its version and what the macros it uses
   gave.  CleanVal is what a clean build of the current sources would give.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS In(_), NumIn, Stride, Offset
VARIABLES tid, src, pyc, dep, now, pos, proc, log,
          low,     \* the time of the next older file
          skip     \* positions of operations left out

vars == <<tid, src, pyc, dep, now, pos, proc, log, low, skip>>
Files == DOMAIN src
Hist == In(tid).hist
None == [k |-> "none"]
Bad  == [k |-> "bad"]
Idle == [k |-> "idle"]

\* ---- what a clean build gives
\* the uses of the given kinds, in the order they are written
Of(us, ks) == SelectSeq(us, LAMBDA u : u.k \in ks)
Fs(us) == [j \in 1..Len(us) |-> us[j].f]
Dial(us)  == Fs(Of(us, {"src", "ast"}))
Src(us)   == Fs(Of(us, {"src"}))
Ast(us)   == Fs(Of(us, {"ast"}))
Phase(us) == Fs(Of(us, {"phase"}))
Plain(us) == Fs(Of(us, {"abs", "rel"}))
\* the order in which what they gave is in the module
Gave(us)  == Src(us) \o Phase(us) \o Plain(us) \o Ast(us)
\* the order in which the module imports them when it runs
Runs(us)  == Dial(us) \o Phase(us) \o Plain(us)
RECURSIVE Clean(_, _), CleanAll(_, _)
CleanAll(s, fs) == IF fs = <<>> THEN "" ELSE Clean(s, Head(fs)) \o CleanAll(s, Tail(fs))
Clean(s, f) == f \o ToString(s[f].ver) \o "(" \o CleanAll(s, Gave(s[f].deps)) \o ")"
RECURSIVE Reach(_, _)
Reach(s, f) == {f} \cup UNION {Reach(s, s[f].deps[j].f) : j \in 1..Len(s[f].deps)}
\* A clean import of f fails if f or anything it uses has a syntax error, or it uses a macro that fails.
Sound(s, f) == \A g \in Reach(s, f) :
                  /\ s[g].fault \notin {"syntax", "gone"}
                  /\ \A j \in 1..Len(s[g].deps) : s[s[g].deps[j].f].fault # "raise"
Val(f, v, ps) == f \o ToString(v) \o "(" \o ps \o ")"

\* ---- the stamp: latest modification time in the macro-dependency graph,
\* as found by following the cached lists, where they are current
ListOfIn(s, f) == IF s[f].fault = "gone" THEN <<>> ELSE IF dep[f].k = "ok" /\ dep[f].mt = s[f].mt THEN dep[f].deps ELSE s[f].deps
ListOf(f) == ListOfIn(src, f)
RECURSIVE SeenIn(_, _)
SeenIn(s, f) == {f} \cup UNION {SeenIn(s, ListOfIn(s, f)[j].f) : j \in 1..Len(ListOfIn(s, f))}
Seen(f) == SeenIn(src, f)
\* (of a file that cannot be parsed, the dialect-imports can still be found)
Dialectal(f) == Dial(src[f].deps) # <<>>
Unparsable(f) == src[f].fault = "gone" \/
  \E g \in Seen(f) : ~(dep[g].k = "ok" /\ dep[g].mt = src[g].mt) /\ src[g].fault = "syntax" /\ ~Dialectal(g)
LatestIn(s, S) == LET there == {g \in S : s[g].fault # "gone"}
             IN CHOOSE m \in {s[g].mt : g \in there} : \A g \in there : s[g].mt <= m
Latest(S) == LatestIn(src, S)
SnapIn(s, f) == [g \in Reach(s, f) |-> [ver |-> IF s[g].fault = "gone" THEN 0 ELSE s[g].ver, mt |-> s[g].mt]]
Snap(f) == SnapIn(src, f)
\* If the sources were s, would some cached compilation seem current without being so?
Masked(s) == \E f \in Files :
  /\ pyc[f].k = "ok" /\ s[f].fault # "gone"
  /\ pyc[f].snap # SnapIn(s, f) /\ pyc[f].stamp = LatestIn(s, SeenIn(s, f))

\* ---- the environment
Op == Hist[pos]
EnvOps == {"edit", "touch", "deps", "break", "mend", "rm", "rmpyc", "badpyc", "rmdep", "baddep", "old"}
Back(f) == IF src[f].fault = "gone" THEN "" ELSE src[f].fault    \* writing a file that is gone brings it back
Changed(f, r) == src' = [src EXCEPT ![f] = r] /\ now' = now + 1
Older(f) == [src EXCEPT ![f].ver = @ + 1, ![f].mt = low, ![f].fault = Back(f), ![f].deps = Op.deps]
\* what is left out (that a file is gone is not noticed, either, while something else has the latest time)
Left == CASE Op.o = "old" -> Masked(Older(Op.f))
          [] Op.o = "rm"  -> low < -1
          [] OTHER -> FALSE
EnvStep ==
  /\ proc.k = "idle" /\ pos <= Len(Hist) /\ Op.o \in EnvOps
  /\ skip' = IF Left THEN skip \cup {pos} ELSE skip
  /\ low' = IF Op.o = "old" /\ ~Left THEN low - 1 ELSE low
  /\ LET f == Op.f IN
     IF Left THEN UNCHANGED <<src, pyc, dep, now>> ELSE
     CASE Op.o = "edit"  -> Changed(f, [src[f] EXCEPT !.ver = @ + 1, !.mt = now, !.fault = Back(f)]) /\ UNCHANGED <<pyc, dep>>
       [] Op.o = "touch" -> Changed(f, [src[f] EXCEPT !.mt = now, !.fault = Back(f)]) /\ UNCHANGED <<pyc, dep>>
       [] Op.o = "deps"  -> Changed(f, [src[f] EXCEPT !.ver = @ + 1, !.mt = now, !.fault = Back(f), !.deps = Op.deps]) /\ UNCHANGED <<pyc, dep>>
       [] Op.o = "break" -> Changed(f, [src[f] EXCEPT !.mt = now, !.fault = Op.how]) /\ UNCHANGED <<pyc, dep>>
       [] Op.o = "mend"  -> Changed(f, [src[f] EXCEPT !.mt = now, !.fault = ""]) /\ UNCHANGED <<pyc, dep>>
       [] Op.o = "old"   -> src' = Older(f) /\ UNCHANGED <<pyc, dep, now>>
       [] Op.o = "rm"    -> src' = [src EXCEPT ![f].fault = "gone"] /\ UNCHANGED <<pyc, dep, now>>
       [] Op.o = "rmpyc"  -> pyc' = [pyc EXCEPT ![f] = None] /\ UNCHANGED <<src, now, dep>>
       [] Op.o = "badpyc" -> pyc' = [pyc EXCEPT ![f] = IF @ = None THEN None ELSE Bad] /\ UNCHANGED <<src, now, dep>>
       [] Op.o = "rmdep"  -> dep' = [dep EXCEPT ![f] = None] /\ UNCHANGED <<src, now, pyc>>
       [] Op.o = "baddep" -> dep' = [dep EXCEPT ![f] = Bad] /\ UNCHANGED <<src, now, pyc>>
  /\ pos' = pos + 1 /\ UNCHANGED <<tid, proc, log>>

\* ---- a process that imports a module
Start ==
  /\ proc.k = "idle" /\ pos <= Len(Hist) /\ Op.o = "import"
  /\ proc' = [k |-> "run", top |-> Op.f, write |-> Op.write, kill |-> Op.kill, calls |-> <<>>,
              vals |-> [g \in {} |-> ""],               \* modules loaded in this process, and their values
              stk |-> <<[f |-> Op.f, at |-> "stat"]>>, how |-> ""]
  /\ UNCHANGED <<low, skip, tid, src, pyc, dep, now, pos, log>>

Running == proc.k = "run" /\ proc.stk # <<>> /\ proc.how = ""
Top == Head(proc.stk)
Loaded == DOMAIN proc.vals
To(fr) == proc' = [proc EXCEPT !.stk = <<fr>> \o Tail(@)]
Fail == proc' = [proc EXCEPT !.how = "error"]

\* A module is built in rounds: some modules are imported, then used.  Each
\* source-transforming dialect is used before the next one is imported.  Only
\* then the text is parsed.
Rounds(us) ==
  LET d == Of(us, {"src", "ast"})
      R(i, u) == [imp |-> i, use |-> u, parse |-> FALSE]
  IN [j \in 1..Len(d) |-> R(<<d[j].f>>, IF d[j].k = "src" THEN <<d[j].f>> ELSE <<>>)]
     \o <<[imp |-> <<>>, use |-> <<>>, parse |-> TRUE],
           R(Phase(us), Phase(us)), R(<<>>, Ast(us)), R(Plain(us), Phase(us) \o Plain(us))>>
StatStep ==
  /\ Running /\ Top.at = "stat"
  /\ LET f == Top.f
         seen == Seen(f)
         new == [g \in Files |-> IF g \in seen THEN [k |-> "ok", mt |-> src[g].mt, deps |-> ListOf(g)] ELSE dep[g]]
     IN IF Unparsable(f)
        THEN Fail /\ UNCHANGED dep
        ELSE /\ dep' = IF proc.write THEN new ELSE dep
             /\ IF pyc[f].k = "ok" /\ pyc[f].stamp = Latest(seen)
                THEN To([f |-> f, at |-> "run", v |-> pyc[f].ver, ps |-> pyc[f].ps, todo |-> pyc[f].deps, cached |-> TRUE])
                ELSE To([f |-> f, at |-> "build", stamp |-> Latest(seen), todo |-> Rounds(src[f].deps)])
  /\ UNCHANGED <<low, skip, tid, src, pyc, now, pos, log>>

Building == Running /\ Top.at = "build" /\ Top.todo # <<>>
Round == Head(Top.todo)
BuildStep ==
  /\ Building /\ Round.imp # <<>>
  /\ IF Head(Round.imp) \in Loaded
     THEN To([Top EXCEPT !.todo = <<[Round EXCEPT !.imp = Tail(@)]>> \o Tail(@)])
     ELSE proc' = [proc EXCEPT !.stk = <<[f |-> Head(Round.imp), at |-> "stat"]>> \o @]
  /\ UNCHANGED <<low, skip, tid, src, pyc, dep, now, pos, log>>

ExpandStep ==
  /\ Building /\ Round.imp = <<>> /\ Round.use # <<>>
  /\ LET d == Head(Round.use)
         cs == Append(proc.calls, Top.f \o "<" \o d)
     IN proc' = IF proc.kill # 0 /\ proc.kill = Len(cs)
                THEN [proc EXCEPT !.calls = cs, !.how = "killed"]
                ELSE IF src[d].fault = "raise"
                THEN [proc EXCEPT !.calls = cs, !.how = "error"]
                ELSE [proc EXCEPT !.calls = cs,
                                  !.stk = <<[Top EXCEPT !.todo = <<[Round EXCEPT !.use = Tail(@)]>> \o Tail(@)]>> \o Tail(@)]
  /\ UNCHANGED <<low, skip, tid, src, pyc, dep, now, pos, log>>

RoundStep ==
  /\ Building /\ Round.imp = <<>> /\ Round.use = <<>>
  /\ IF Round.parse /\ src[Top.f].fault = "syntax" THEN Fail
     ELSE To([Top EXCEPT !.todo = Tail(@)])
  /\ UNCHANGED <<low, skip, tid, src, pyc, dep, now, pos, log>>

RECURSIVE ValsOf(_)
ValsOf(ds) == IF ds = <<>> THEN "" ELSE proc.vals[Head(ds)] \o ValsOf(Tail(ds))
CompileStep ==
  /\ Running /\ Top.at = "build" /\ Top.todo = <<>>
  /\ LET f == Top.f
         ps == ValsOf(Gave(src[f].deps))
     IN
     /\ pyc' = IF proc.write
               THEN [pyc EXCEPT ![f] = [k |-> "ok", stamp |-> Top.stamp, ver |-> src[f].ver, ps |-> ps,
                                        deps |-> Runs(src[f].deps), snap |-> Snap(f)]]
               ELSE pyc
     /\ To([f |-> f, at |-> "run", v |-> src[f].ver, ps |-> ps, todo |-> Runs(src[f].deps), cached |-> FALSE])
  /\ UNCHANGED <<low, skip, tid, src, dep, now, pos, log>>

RunStep ==
  /\ Running /\ Top.at = "run"
  /\ LET f == Top.f
     IN IF Top.todo # <<>>
        THEN IF Head(Top.todo) \in Loaded THEN To([Top EXCEPT !.todo = Tail(@)])
             ELSE proc' = [proc EXCEPT !.stk = <<[f |-> Head(Top.todo), at |-> "stat"]>> \o @]
        ELSE proc' = [proc EXCEPT !.vals = (f :> Val(f, Top.v, Top.ps)) @@ @, !.stk = Tail(@)]
  /\ UNCHANGED <<low, skip, tid, src, pyc, dep, now, pos, log>>

Exit ==
  /\ proc.k = "run" /\ (proc.stk = <<>> \/ proc.how # "")
  /\ log' = Append(log, [how |-> IF proc.how = "" THEN "ok" ELSE proc.how,
                         val |-> IF proc.how = "" THEN proc.vals[proc.top] ELSE "",
                         calls |-> proc.calls])
  /\ proc' = Idle /\ pos' = pos + 1
  /\ UNCHANGED <<low, skip, tid, src, pyc, dep, now>>

Done == proc.k = "idle" /\ pos > Len(Hist)

Init ==
  /\ tid \in {i \in 1..NumIn : i % Stride = Offset}
  /\ src = [f \in DOMAIN In(tid).files |-> [ver |-> 1, mt |-> In(tid).files[f].mt, fault |-> "",
                                            deps |-> In(tid).files[f].deps]]
  /\ pyc = [f \in DOMAIN In(tid).files |-> None]
  /\ dep = [f \in DOMAIN In(tid).files |-> None]
  /\ now = 100 /\ low = -1 /\ skip = {} /\ pos = 1 /\ proc = Idle /\ log = <<>>
Next == EnvStep \/ Start \/ StatStep \/ BuildStep \/ ExpandStep \/ RoundStep \/ CompileStep \/ RunStep \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- properties
\* Every module loaded in a process is what a clean build would give.
UpToDate == proc.k = "run" => \A f \in Loaded : proc.vals[f] = Clean(src, f)
\* An import fails only if a clean one would.
FailsRightly == proc.k = "run" /\ proc.how = "error" => ~Sound(src, proc.top)
SucceedsRightly == proc.k = "run" /\ proc.stk = <<>> => Sound(src, proc.top)
\* A compilation happens only if there is no usable cache or something changed since it was written.
NoNeedlessBuild ==
  proc.k = "run" /\ proc.stk # <<>> /\ Top.at = "build" =>
    pyc[Top.f].k # "ok" \/ pyc[Top.f].snap # Snap(Top.f)
\* and the cache is used only if nothing changed (or what it depends on is gone, and then the import fails)
CacheRight ==
  proc.k = "run" /\ proc.stk # <<>> /\ Top.at = "run" /\ Top.cached =>
    \/ \E g \in Reach(src, Top.f) : src[g].fault = "gone"
    \/ \A g \in DOMAIN pyc[Top.f].snap : src[g].ver = pyc[Top.f].snap[g].ver
Report == Done => PrintT("@" \o ToJson([id |-> tid, files |-> In(tid).files, hist |-> [j \in 1..Len(Hist) |-> IF j \in skip THEN [Hist[j] EXCEPT !.o = "skip"] ELSE Hist[j]], log |-> log]))
=============================================================================
