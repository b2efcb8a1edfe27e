---------------------------- MODULE Multiphase ----------------------------
(* Multi-phase compilation of a module and its run.

   A program is [doc, fut, mpos, body]: whether it has a docstring, whether it has
   the future-import of annotations, before which statement of the body it asks for
   multi-phase compilation, and the body.  Statements [t, m, k, id, body]:
     st     log (phase, id)
     mac    define macro m, which gives the list it is given with id appended; log
     self   from __self__ import macros, m
     uimp   from a macro module import macros, u  (which gives -1)
     use    log (phase, id, m[[]])
     ann    define a function with an annotation that is not defined
     fail   raise an error when run at phase k
     phase  with phase[k]: body
     nest   a phase block inside another statement; bad: a malformed one

   The machine keeps the tree as the compiler does: at phase k the blocks marked k are
   taken out to be compiled and run, and put back, marked k-1 (or unwrapped), into what is
   left.  `Of(body, k)` says what the code of phase k should be.  `shown` is what the stepping of phases
   shows: the code of each phase before it is expanded.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS In(_), NumIn, Stride, Offset
VARIABLES tid, pc, k, tree, code, ns, bound, log, stop, shown
vars == <<tid, pc, k, tree, code, ns, bound, log, stop, shown>>
Prog == In(tid).prog
Macros == {"a", "b", "u"}
NoMac == [m \in Macros |-> 0]

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Top(body) == Max({0} \cup {body[i].k : i \in {j \in DOMAIN body : body[j].t = "phase"}})

\* what phase j consists of, by the source alone
RECURSIVE Of(_, _)
Of(body, j) == IF body = <<>> THEN <<>>
  ELSE LET c == Head(body) IN
       (IF c.t = "phase" THEN (IF c.k >= j THEN c.body ELSE <<>>) ELSE IF j = 0 THEN <<c>> ELSE <<>>) \o Of(Tail(body), j)

\* the blocks of phase j; and what is left, with them lifted
RECURSIVE Taken(_, _), Left(_, _)
Taken(t, j) == IF t = <<>> THEN <<>>
  ELSE (IF Head(t).t = "phase" /\ Head(t).k = j THEN Head(t).body ELSE <<>>) \o Taken(Tail(t), j)
Left(t, j) == IF t = <<>> THEN <<>>
  ELSE LET c == Head(t) IN
       (IF c.t = "phase" /\ c.k = j THEN (IF j = 1 THEN c.body ELSE <<[c EXCEPT !.k = j - 1]>>) ELSE <<c>>) \o Left(Tail(t), j)

Init == /\ tid \in {i \in 1..NumIn : i % Stride = Offset % Stride}
        /\ pc = "extract" /\ tree = Prog.body /\ k = Top(Prog.body)
        /\ code = <<>> /\ ns = NoMac /\ bound = NoMac /\ log = <<>> /\ stop = <<>> /\ shown = <<>>

RECURSIVE IdsOf(_)
IdsOf(t) == IF t = <<>> THEN <<>>
  ELSE (IF Head(t).t \in {"st", "mac", "use", "ann", "nest", "bad"} THEN <<Head(t).id>> ELSE <<>>) \o IdsOf(Tail(t))

\* take the code of this phase out of the tree
Extract == /\ pc = "extract"
           /\ code' = IF k = 0 THEN tree ELSE Taken(tree, k)
           /\ tree' = IF k = 0 THEN tree ELSE Left(tree, k)
           /\ pc' = "expand"
           /\ shown' = Append(shown, <<k, IdsOf(code')>>)
           /\ UNCHANGED <<tid, k, ns, bound, log, stop>>

\* bind macros; an import of a macro that no higher phase has defined fails
Misplaced == \E i \in DOMAIN code : code[i].t \in {"nest", "bad"}
Expand == /\ pc = "expand"
          /\ LET sel == {i \in DOMAIN code : code[i].t = "self"}
                 ok == \A i \in sel : ns[code[i].m] # 0
             IN /\ bound' = [m \in Macros |-> IF m = "u" THEN (IF \E i \in DOMAIN code : code[i].t = "uimp" THEN -1 ELSE 0)
                                              ELSE IF \E i \in sel : code[i].m = m THEN ns[m] ELSE 0]
                \* at phase 0 the phase macro is there to refuse what is not in its place
                /\ pc' = IF ~ok \/ (k = 0 /\ Misplaced) THEN "failed" ELSE "run"
                /\ stop' = IF ~ok \/ (k = 0 /\ Misplaced) THEN <<k, "expand">> ELSE stop
                /\ ns' = IF k = 0 THEN NoMac ELSE ns     \* the final module is another one
          /\ UNCHANGED <<tid, k, tree, code, log, shown>>

Fails(c) == \/ c.t = "ann" /\ ~Prog.fut
            \/ c.t = "fail" /\ c.k = k
            \/ c.t = "use" /\ bound[c.m] = 0
            \/ c.t \in {"nest", "bad", "phase"}
Run == /\ pc = "run" /\ code # <<>>
       /\ LET c == Head(code) IN
          IF Fails(c) THEN /\ pc' = "failed" /\ stop' = <<k, IF c.t \in {"nest", "bad", "phase"} THEN "expand" ELSE "run">>
                           /\ UNCHANGED <<log, ns>>
          ELSE /\ ns' = IF c.t = "mac" THEN [ns EXCEPT ![c.m] = c.id] ELSE ns
               /\ log' = IF c.t \in {"st", "mac", "ann"} THEN Append(log, <<k, c.id>>)
                         ELSE IF c.t = "use" THEN Append(log, <<k, c.id, bound[c.m]>>) ELSE log
               /\ UNCHANGED <<pc, stop>>
       /\ code' = Tail(code)
       /\ UNCHANGED <<tid, k, tree, bound, shown>>
EndPhase == /\ pc = "run" /\ code = <<>>
            /\ IF k = 0 THEN pc' = "done" /\ k' = k ELSE pc' = "extract" /\ k' = k - 1
            /\ UNCHANGED <<tid, tree, code, ns, bound, log, stop, shown>>
Next == Extract \/ Expand \/ Run \/ EndPhase

Final == pc \in {"done", "failed"}
Report == Final => PrintT("@" \o ToJson([id |-> tid, prog |-> Prog, pc |-> pc, log |-> log, stop |-> stop, shown |-> shown,
              doc |-> Prog.doc, defs |-> IF pc = "done" THEN {m \in Macros : ns[m] # 0} ELSE {}]))

-----------------------------------------------------------------------------
\* the code of each phase is what is marked for it or a higher one, in source order
CodeRight == pc = "expand" => code = Of(Prog.body, k)
\* the phases are shown from the highest down, none left out
ShownAll == /\ \A i \in DOMAIN shown : shown[i][1] = Top(Prog.body) + 1 - i
            /\ Final => Len(shown) = Top(Prog.body) + 1 - k
\* what ran at a phase had been shown as its code
RanShown == \A i \in DOMAIN log : \E j \in DOMAIN shown : shown[j][1] = log[i][1] /\ \E n \in DOMAIN shown[j][2] : shown[j][2][n] = log[i][2]
\* in source order within each phase, from the highest phase down
Ids(body) == [i \in DOMAIN body |-> body[i].id]
Ordered == \A i, j \in DOMAIN log : i < j => log[i][1] > log[j][1] \/ log[i][1] = log[j][1]
\* lifting is complete: at phase 0 no block is left, and what logged at a phase logs at every lower one
NoBlockLeft == (pc = "expand" /\ k = 0) => \A i \in DOMAIN code : code[i].t # "phase"
LoggedAt(j) == {log[i][2] : i \in {x \in DOMAIN log : log[x][1] = j}}
Lifted == pc = "done" => \A j \in 1..Top(Prog.body) : LoggedAt(j) \subseteq LoggedAt(j - 1)
\* a macro used at a phase was defined at a higher one
FromAbove == \A i \in DOMAIN log : Len(log[i]) = 3 /\ log[i][3] > 0 =>
               \E j \in 1..(i - 1) : log[j][1] > log[i][1] /\ log[j][2] = log[i][3]
=============================================================================
