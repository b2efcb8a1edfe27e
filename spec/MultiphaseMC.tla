--------------------------- MODULE MultiphaseMC ---------------------------
(* Every body of BodyLen statements of an alphabet, with and without docstring, future-import,
   and with the request for phases before, amid or after the body. *)
EXTENDS Multiphase
CONSTANTS BodyLen
S(t, m, j) == [t |-> t, m |-> m, k |-> j, id |-> 0, body |-> <<>>]
P(j, b) == [t |-> "phase", m |-> "", k |-> j, id |-> 0, body |-> b]
Alphabet == <<
  S("st", "", 0), S("self", "a", 0), S("use", "a", 0), S("use", "b", 0), S("self", "b", 0), S("ann", "", 0), S("mac", "a", 0), S("nest", "", 1), S("bad", "", 0),
  S("uimp", "u", 0), S("fail", "", 0),
  P(1, <<S("mac", "a", 0)>>), P(1, <<S("st", "", 0), S("self", "a", 0), S("use", "a", 0)>>), P(1, <<S("mac", "b", 0), S("use", "u", 0)>>),
  P(2, <<S("mac", "a", 0)>>), P(2, <<S("mac", "a", 0), S("mac", "b", 0), S("ann", "", 0)>>), P(2, <<S("self", "b", 0), S("use", "b", 0)>>),
  P(3, <<S("mac", "b", 0)>>), P(2, <<S("uimp", "u", 0), S("use", "u", 0)>>), P(1, <<S("fail", "", 1), S("mac", "a", 0)>>), P(2, <<S("nest", "", 1)>>) >>
NA == Len(Alphabet)
RECURSIVE Pow(_), Digits(_, _), Num(_, _)
Pow(n) == IF n = 0 THEN 1 ELSE NA * Pow(n - 1)
\* number the statements
Num(b, i) == [j \in DOMAIN b |-> [b[j] EXCEPT !.id = i + j, !.body = [x \in DOMAIN b[j].body |-> [b[j].body[x] EXCEPT !.id = 10 * (i + j) + x]]]]
Digits(x, n) == IF n = 0 THEN <<>> ELSE <<Alphabet[(x % NA) + 1]>> \o Digits(x \div NA, n - 1)
MCNum == Pow(BodyLen)
MCIn(i) == [prog |-> [doc |-> i % 2 = 0, fut |-> i % 3 # 0, mpos |-> (i % 5) % (BodyLen + 1), body |-> Num(Digits(i - 1, BodyLen), 0)]]
Inputs == JsonDeserialize("input.json")
JsonIn(i) == Inputs[i]
JsonNum == Len(Inputs)
=============================================================================
