------------------------------ MODULE Helpers ------------------------------
(* Helpers for writing macros (C27): nesting levels, generated names, lists, bindings, colors.
   A program is a sequence of operations [op, t, n, j, b, xs, ...]; blocks are opened by "set", "chg", "try", "fn",
   and closed by "end" (j of the opening operation is the index of the "end" that closes it).
     set/chg: a with block in which the level of tracker t is n / is changed by n   (fails if it would be negative)
     bad:     set_to of something that isn't an integer        raise: an error     leave: return from the innermost fn
     gensym:  a new name from basename b; draws is what the source of randomness gives next (it may repeat itself)
     scrub:   xs: characters          flat: c: a nested list (k: "l" list, "n" None, "x" item)
     pick:    names bound to functions (nb), the functions wanted (xs)
     color:   c: nested colors, b: text, n: with reset         paint/adopt/show: the color scheme               *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets
CONSTANTS N, In(_)
VARIABLES id, ops, i, frames, draws, used, pend, flat, scheme, out
vars == <<id, ops, i, frames, draws, used, pend, flat, scheme, out>>

Trackers == {1, 2}
Start(t) == IF t = 1 THEN 0 ELSE 2
With(f) == f.kind \in {"set", "chg"}
RECURSIVE LevelIn(_, _)
LevelIn(fs, t) == IF fs = <<>> THEN Start(t)
                  ELSE IF With(fs[Len(fs)]) /\ fs[Len(fs)].t = t THEN fs[Len(fs)].n
                  ELSE LevelIn(SubSeq(fs, 1, Len(fs) - 1), t)
Level(t) == LevelIn(frames, t)
Levels(fs) == <<LevelIn(fs, 1), LevelIn(fs, 2)>>

O == ops[i]
Live == i <= Len(ops)
Same == UNCHANGED <<id, ops>>
Rec(ret, fs) == [ret |-> ret, levels |-> Levels(fs)]
One(ret) == /\ i' = i + 1 /\ out' = Append(out, Rec(ret, frames)) /\ UNCHANGED <<frames, draws, used, pend, flat, scheme>> /\ Same

\* ---- nesting levels: errors and returns go out of the blocks, one at a time -----------------------------------------
Top == frames[Len(frames)]
Pop == SubSeq(frames, 1, Len(frames) - 1)
\* out through the blocks in fs up to the nearest that stops what is passing through
RECURSIVE Catch(_, _)
Catch(fs, kind) == IF fs = <<>> THEN 0 ELSE IF fs[Len(fs)].kind = kind THEN Len(fs) ELSE Catch(SubSeq(fs, 1, Len(fs) - 1), kind)
Leave(ret, kind) == LET c == Catch(frames, kind)
                        fs == SubSeq(frames, 1, IF c = 0 THEN 0 ELSE c - 1)
                    IN /\ i' = IF c = 0 THEN Len(ops) + 1 ELSE frames[c].j + 1
                       /\ frames' = fs
                       /\ out' = Append(out, Rec(ret, fs))
                       /\ UNCHANGED <<draws, used, pend, flat, scheme>> /\ Same
Open(n) == /\ frames' = Append(frames, [kind |-> O.op, t |-> O.t, n |-> n, j |-> O.j, was |-> Levels(frames)])
           /\ i' = i + 1 /\ out' = Append(out, Rec("in", frames'))
           /\ UNCHANGED <<draws, used, pend, flat, scheme>> /\ Same
Close == /\ frames' = Pop /\ i' = i + 1 /\ out' = Append(out, Rec("out", Pop))
         /\ UNCHANGED <<draws, used, pend, flat, scheme>> /\ Same
Nest == /\ Live
        /\ CASE O.op = "set" -> IF O.n < 0 THEN Leave("ValueError", "try") ELSE Open(O.n)
             [] O.op = "chg" -> IF Level(O.t) + O.n < 0 THEN Leave("ValueError", "try") ELSE Open(Level(O.t) + O.n)
             [] O.op \in {"try", "fn"} -> Open(0)
             [] O.op = "bad" -> Leave("TypeError", "try")
             [] O.op = "raise" -> Leave(O.b, "try")
             [] O.op = "leave" -> Leave("left", "fn")
             [] O.op = "end" -> Close
             [] OTHER -> FALSE

\* ---- names ----------------------------------------------------------------------------------------------------------
Prefix(b) == IF b = "None" THEN "gensym_" ELSE IF b = "" THEN "" ELSE b \o "_"
Base(b) == IF b = "None" THEN "gensym" ELSE IF b = "" THEN "*" ELSE b          \* "*": the name itself
\* (what is drawn after the script is new)
Drawn == IF draws = <<>> THEN 1000 + Cardinality(used) ELSE Head(draws)
Name == <<Prefix(O.b), Drawn>>
Draw == /\ Live /\ O.op = "gensym"
        /\ draws' = IF draws = <<>> THEN draws ELSE Tail(draws)
        /\ IF Name \in used THEN /\ UNCHANGED <<i, out, used>>
           ELSE /\ used' = used \cup {Name} /\ i' = i + 1
                /\ out' = Append(out, Rec(Prefix(O.b) \o "/" \o Base(O.b), frames))
        /\ UNCHANGED <<frames, pend, flat, scheme>> /\ Same
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}
RECURSIVE LastBar(_, _)
LastBar(xs, k) == IF k = 0 THEN 0 ELSE IF xs[k] = "_" THEN k ELSE LastBar(xs, k - 1)
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN "" ELSE Head(xs) \o Join(Tail(xs))
Scrub(xs) == LET k == LastBar(xs, Len(xs)) IN
             IF k # 0 /\ Len(xs) - k = 32 /\ (\A m \in (k + 1)..Len(xs) : xs[m] \in Hex) THEN SubSeq(xs, 1, k - 1) ELSE xs
Scrubbing == Live /\ O.op = "scrub" /\ One(Join(Scrub(O.xs)))

\* ---- lists: one item at a time; pend is what is still to be gone through ----------------------------------------------
Flatten == /\ Live /\ O.op = "flat"
           /\ IF pend = <<>> /\ flat = <<"start">> THEN /\ pend' = O.c /\ flat' = <<>> /\ UNCHANGED <<i, out>>
              ELSE IF pend = <<>> THEN /\ out' = Append(out, Rec(Join([m \in 1..Len(flat) |-> flat[m] \o " "]), frames))
                                       /\ i' = i + 1 /\ flat' = <<"start">> /\ UNCHANGED pend
              ELSE LET x == Head(pend) IN
                   /\ pend' = IF x.k = "l" THEN x.c \o Tail(pend) ELSE Tail(pend)
                   /\ flat' = IF x.k = "x" THEN Append(flat, x.v) ELSE flat
                   /\ UNCHANGED <<i, out>>
           /\ UNCHANGED <<frames, draws, used, scheme>> /\ Same
RECURSIVE Leaves(_)
Leaves(xs) == IF xs = <<>> THEN <<>> ELSE (CASE Head(xs).k = "l" -> Leaves(Head(xs).c) [] Head(xs).k = "n" -> <<>> [] OTHER -> <<Head(xs).v>>) \o Leaves(Tail(xs))

\* ---- bindings -----------------------------------------------------------------------------------------------------------
In2(x, xs) == \E m \in 1..Len(xs) : xs[m] = x
Pick == Live /\ O.op = "pick" /\ One(Join([m \in 1..Len(O.nb) |-> IF In2(O.nb[m].f, O.xs) THEN O.nb[m].k \o "=" \o O.nb[m].f \o " " ELSE ""]))

\* ---- colors -------------------------------------------------------------------------------------------------------------
Colors(c) == Join(Leaves(c))
Color == Live /\ O.op = "color" /\ One(IF O.b = "set" THEN (IF O.n = 1 THEN "~" ELSE "") \o Colors(O.c) ELSE "~" \o Colors(O.c) \o O.b \o "~")
Paint == /\ Live /\ O.op \in {"paint", "adopt"}
         /\ scheme' = IF O.op = "paint" THEN [scheme EXCEPT ![O.b] = Colors(O.c)] ELSE [k \in DOMAIN scheme |-> Colors(O.c) \o k]
         /\ i' = i + 1 /\ out' = Append(out, Rec("painted", frames))
         /\ UNCHANGED <<frames, draws, used, pend, flat>> /\ Same
Show == Live /\ O.op = "show" /\ One("~" \o scheme[O.b])

Init == /\ id \in 1..N /\ ops = In(id).ops /\ i = 1 /\ frames = <<>> /\ draws = In(id).draws /\ used = {} /\ pend = <<>> /\ flat = <<"start">>
        /\ scheme = [k \in {"STRING", "NUMBER", "NAMECONSTANT", "LANGUAGEKEYWORD", "BUILTINEXCEPTION", "BUILTINOTHER", "DEFNAME", "NODETYPE", "FIELDNAME", "BAREVALUE",
                            "SOURCEFILENAME"} |-> "?"]
        /\ out = <<>>
Next == Nest \/ Draw \/ Scrubbing \/ Flatten \/ Pick \/ Color \/ Paint \/ Show

\* ---- properties -------------------------------------------------------------------------
NonNegative == \A t \in Trackers : Level(t) >= 0
\* when a block is left, in whatever way, the levels are what they were when it was entered
Restored == [][ Len(frames') < Len(frames) => Levels(frames') = frames[Len(frames') + 1].was ]_vars
\* what is done to one tracker does not show in the other
Independent == [][ Len(frames') = Len(frames) + 1 => \A t \in Trackers : (t # O.t \/ O.op \in {"try", "fn"}) => LevelIn(frames', t) = LevelIn(frames, t) ]_vars
\* a name given out has not been given out before
Fresh == [][ \A x \in used' : (x \notin used) => \A y \in used : x # y ]_vars
Counted == Cardinality(used) <= Len(out)
GivesOut == [][ (Live /\ O.op = "gensym" /\ i' > i) => Cardinality(used') = Cardinality(used) + 1 ]_vars
\* nothing is lost or moved while a list is flattened
Flattens == (Live /\ O.op = "flat" /\ flat # <<"start">>) => flat \o Leaves(pend) = Leaves(O.c)
J == JsonDeserialize("input.json")
JIn(x) == J[x]
JN == Len(J)
Report == i > Len(ops) => PrintT("@" \o ToJson([id |-> id, out |-> out]))
=============================================================================
