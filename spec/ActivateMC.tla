---------------------------- MODULE ActivateMC ----------------------------
EXTENDS Activate
CONSTANTS HistLen
O(o, f) == [o |-> o, f |-> f, write |-> TRUE]
Ops == <<O("imp", "p"), O("imp", "u"), O("imp", "s"), O("imp", "h"), [O("imp", "p") EXCEPT !.write = FALSE], [O("imp", "u") EXCEPT !.write = FALSE],
         O("act", ""), O("deact", ""), O("load", ""), O("forget", ""), O("edit", "u"), O("edit", "d"), O("edit", "p"), O("break", "p"), O("break", "d"), O("imp", "d")>>
N == Len(Ops)
RECURSIVE Pow(_), Digits(_, _)
Pow(k) == IF k = 0 THEN 1 ELSE N * Pow(k - 1)
Digits(x, k) == IF k = 0 THEN <<>> ELSE <<Ops[(x % N) + 1]>> \o Digits(x \div N, k - 1)
Setups == <<
  <<>>,
  <<O("load", ""), O("imp", "u"), O("imp", "p"), O("forget", "")>>,
  <<O("imp", "p"), O("load", ""), O("imp", "s"), O("imp", "h"), O("deact", ""), O("forget", "")>>,
  <<O("load", ""), O("deact", ""), O("act", ""), O("imp", "u"), O("deact", ""), O("forget", "")>> >>
MCNum == 2 * Len(Setups) * Pow(HistLen)
MCIn(i) == [dmt |-> 1 + 2 * ((i - 1) % 2), hist |-> Setups[(((i - 1) \div 2) % Len(Setups)) + 1] \o Digits((i - 1) \div (2 * Len(Setups)), HistLen)]
Inputs == JsonDeserialize("input.json")
JsonIn(i) == Inputs[i]
JsonNum == Len(Inputs)
=============================================================================
