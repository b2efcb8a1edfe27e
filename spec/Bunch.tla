------------------------------- MODULE Bunch -------------------------------
(* A bunch of named values (C26): a dictionary whose items can also be got at as attributes.
   Stores hold the data, as sequences of [k, v] in the order of insertion; handles are the bunches and
   dictionaries of the program, each with its store. `bunchify` makes a bunch on the store of a dictionary.
   A value is a name of an object (deep copies of object o are o').
   Input: the operations [op, h, g, k, v, kw]: h, g: handles (1..); k: a key; v: a value; kw: items.      *)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets
CONSTANTS N, In(_)
VARIABLES id, ops, i, stores, handles, out
vars == <<id, ops, i, stores, handles, out>>

Idx(s, k) == IF \E j \in 1..Len(s) : s[j].k = k THEN CHOOSE j \in 1..Len(s) : s[j].k = k ELSE 0
HasK(s, k) == Idx(s, k) # 0
Val(s, k) == s[Idx(s, k)].v
Put(s, k, v) == IF HasK(s, k) THEN [s EXCEPT ![Idx(s, k)].v = v] ELSE Append(s, [k |-> k, v |-> v])
Del(s, k) == SubSeq(s, 1, Idx(s, k) - 1) \o SubSeq(s, Idx(s, k) + 1, Len(s))
RECURSIVE PutAll(_, _)
PutAll(s, kw) == IF kw = <<>> THEN s ELSE PutAll(Put(s, Head(kw).k, Head(kw).v), Tail(kw))
Same(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : HasK(t, s[j].k) /\ Val(t, s[j].k) = s[j].v
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE s[1].k \o "=" \o s[1].v \o (IF Len(s) > 1 THEN ", " ELSE "") \o Text(Tail(s))

\* names that are methods of every bunch: they are items, but not attributes
Reserved == {"get", "keys", "pop", "copy", "replace", "items", "__len__"}
Idents == {"a", "b", "c"} \cup Reserved

O == ops[i]
H == handles[O.h]
S == stores[H.st]
G == handles[O.g]
T == stores[G.st]
IsB == H.kind = "bunch"

Obs(hs, ss) == [j \in 1..Len(hs) |-> ss[hs[j].st]]
Done(ret, ss, hs) == /\ stores' = ss /\ handles' = hs /\ i' = i + 1
                     /\ out' = Append(out, [ret |-> ret, obs |-> Obs(hs, ss)])
                     /\ UNCHANGED <<id, ops>>
Ret(ret) == Done(ret, stores, handles)
Set(ret, s) == Done(ret, [stores EXCEPT ![H.st] = s], handles)
NewStore(s, kind) == Done("new", Append(stores, s), Append(handles, [kind |-> kind, st |-> Len(stores) + 1]))
B2S(b) == IF b THEN "True" ELSE "False"

Step ==
  /\ i <= Len(ops)
  /\ CASE O.op = "bunch" -> NewStore(PutAll(<<>>, O.kw), "bunch")
       [] O.op = "dict" -> NewStore(PutAll(<<>>, O.kw), "dict")
       [] O.op = "bunchify" ->
            IF IsB THEN Done("same", stores, handles)
            ELSE IF \E j \in 1..Len(S) : S[j].k \notin Idents THEN Ret("ValueError")
            ELSE Done("new", stores, Append(handles, [kind |-> "bunch", st |-> H.st]))
       [] O.op = "twin" -> NewStore([j \in 1..Len(S) |-> S[Len(S) + 1 - j]], O.k)     \* the same items, in another order
       [] O.op = "copy" -> NewStore(S, H.kind)
       [] O.op \in {"deepcopy", "pickle"} -> NewStore([j \in 1..Len(S) |-> [S[j] EXCEPT !.v = IF @ = "None" THEN @ ELSE @ \o "'"]], H.kind)
       [] O.op = "replace" ->     \* the data of the other, copied; what shared the old data keeps it
            IF ~IsB THEN Ret("skip")
            ELSE IF G.kind # "bunch" THEN Ret("TypeError")
            ELSE Done("None", Append(stores, T), [handles EXCEPT ![O.h].st = Len(stores) + 1])
       [] O.op = "getattr" -> Ret(IF ~IsB THEN "skip" ELSE IF O.k \in Reserved THEN "method" ELSE IF HasK(S, O.k) THEN Val(S, O.k) ELSE "AttributeError")
       [] O.op = "getattrdef" -> Ret(IF ~IsB THEN "skip" ELSE IF O.k \in Reserved THEN "method" ELSE IF HasK(S, O.k) THEN Val(S, O.k) ELSE O.v)
       [] O.op = "hasattr" -> Ret(IF ~IsB THEN "skip" ELSE B2S(O.k \in Reserved \/ HasK(S, O.k)))
       [] O.op = "setattr" -> IF ~IsB THEN Ret("skip") ELSE IF O.k \in Reserved THEN Ret("AttributeError") ELSE Set("None", Put(S, O.k, O.v))
       [] O.op = "delattr" -> IF ~IsB \/ O.k \in Reserved THEN Ret("skip") ELSE IF HasK(S, O.k) THEN Set("None", Del(S, O.k)) ELSE Ret("AttributeError")
       [] O.op = "getitem" -> Ret(IF HasK(S, O.k) THEN Val(S, O.k) ELSE "KeyError")
       [] O.op = "setitem" -> Set("None", Put(S, O.k, O.v))
       [] O.op = "delitem" -> IF HasK(S, O.k) THEN Set("None", Del(S, O.k)) ELSE Ret("KeyError")
       [] O.op = "in" -> Ret(B2S(HasK(S, O.k)))
       [] O.op = "get" -> Ret(IF HasK(S, O.k) THEN Val(S, O.k) ELSE "None")
       [] O.op = "getdef" -> Ret(IF HasK(S, O.k) THEN Val(S, O.k) ELSE O.v)
       [] O.op = "pop" -> IF HasK(S, O.k) THEN Set(Val(S, O.k), Del(S, O.k)) ELSE Ret("KeyError")
       [] O.op = "popdef" -> IF HasK(S, O.k) THEN Set(Val(S, O.k), Del(S, O.k)) ELSE Ret(O.v)
       [] O.op = "popitem" -> IF S = <<>> THEN Ret("KeyError") ELSE Set(S[Len(S)].k \o ":" \o S[Len(S)].v, SubSeq(S, 1, Len(S) - 1))
       [] O.op = "clear" -> Set("None", <<>>)
       [] O.op = "update" -> Set("None", PutAll(S, O.kw))
       [] O.op = "setdefault" -> IF HasK(S, O.k) THEN Ret(Val(S, O.k)) ELSE Set(O.v, Put(S, O.k, O.v))
       [] O.op = "setdefault0" -> IF HasK(S, O.k) THEN Ret(Val(S, O.k)) ELSE Set("None", Put(S, O.k, "None"))
       [] O.op = "len" -> Ret(ToString(Len(S)))
       [] O.op = "list" -> Ret(Text(S))
       [] O.op = "eq" -> Ret(B2S(Same(S, T)))
       [] O.op = "ne" -> Ret(B2S(~Same(S, T)))
       [] O.op = "repr" -> Ret(IF IsB THEN "Bunch(" \o Text(S) \o ")" ELSE "skip")
Init == /\ id \in 1..N /\ ops = In(id) /\ i = 1 /\ stores = <<>> /\ handles = <<>> /\ out = <<>>
Next == Step

\* ---- properties -------------------------------------------------------------------------
NoDup(s) == \A j, l \in 1..Len(s) : s[j].k = s[l].k => j = l
Keyed == \A j \in 1..Len(stores) : NoDup(stores[j])
\* only what shares its data with the one written to sees it
Apart == [][ i' > i => \A j \in 1..Len(handles) :
               (handles[j].st # H.st \/ O.op \in {"bunch", "dict"}) => stores'[handles'[j].st] = stores[handles[j].st] ]_vars
\* a bunch never becomes something else, and none vanishes
Kept == [][ Len(handles') >= Len(handles) /\ \A j \in 1..Len(handles) : handles'[j].kind = handles[j].kind ]_vars
\* looking changes nothing
Looks == {"getattr", "getattrdef", "hasattr", "getitem", "in", "get", "getdef", "len", "list", "eq", "ne", "repr"}
Pure == [][ (i <= Len(ops) /\ O.op \in Looks) => stores' = stores /\ handles' = handles ]_vars
J == JsonDeserialize("input.json")
JIn(x) == J[x]
JN == Len(J)
Report == i > Len(ops) => PrintT("@" \o ToJson([id |-> id, out |-> out]))
=============================================================================
