-------------------------------- MODULE Net ---------------------------------
(* A byte stream between two processes. Messages are sequences of bytes, bytes preceded    *)
(* by their number and "#", or arrays preceded by one byte for the byte order. How the     *)
(* stream is cut into pieces plays no role.                                                *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
BytesOf(m) == CASE m.k = "raw" -> Len(m.v) [] m.k = "msg" -> Digits(Len(m.v)) + 1 + Len(m.v) [] m.k = "bin" -> 1 + Len(m.v) * m.sz
RECURSIVE BytesTo(_, _)
BytesTo(q, i) == IF i = 0 THEN 0 ELSE BytesOf(q[i]) + BytesTo(q, i - 1)
AddSeq(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
\* n elements of the message were received as kind k into memory a
Received(m, k, n, a) ==
  CASE k = "raw" -> SubSeq(m.v, 1, n)
    [] k = "add" -> AddSeq(a, m.v)
    [] OTHER -> m.v
Fits(m, k) == k = m.k \/ (m.k = "bin" /\ k \in {"add", "file"})
Rest(m, n) == [m EXCEPT !.v = SubSeq(@, n + 1, Len(@))]
=============================================================================
