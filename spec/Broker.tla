------------------------------- MODULE Broker -------------------------------
(* The third-level broker between two systems: what it tells them and what it relays.     *)
(* Arrays are described by their length, two linear sums and, if short, their elements.   *)
EXTENDS Integers, Sequences, FiniteSets
P == 536870909
Other(s) == 3 - s
\* element-wise sum of two described arrays
Sum(d, e) == [n |-> d.n, a |-> (d.a + e.a) % P, b |-> (d.b + e.b) % P, v |-> [i \in 1..Len(d.v) |-> d.v[i] + e.v[i]]]
Addable(d, e) == d.n = e.n /\ Len(d.v) = Len(e.v)
\* numbers of arrays a system sends and receives in operation o, as the first or the second
Sends(o, first) == CASE o.k = "combine" -> Len(o.n) [] o.k = "file" -> 0 [] OTHER -> IF first \/ o.both THEN 1 ELSE 0
Gets(o, first) == Sends(o, ~first)
\* bytes on the wire of arrays of n elements of w bytes: one byte for the byte order
Wire(n, w) == 1 + n * w
RECURSIVE SumSeq(_, _)
SumSeq(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumSeq(f, k - 1)
CombineBytes(o) == IF o.k = "combine" THEN SumSeq([i \in 1..Len(o.n) |-> 2 * Wire(o.n[i], 8)], Len(o.n)) ELSE 0
SizeBytes(o) == IF o.k = "sizes" THEN Wire(o.n[1], 4) + Wire(o.n[2], 4) ELSE 0
TotalOf(ops, F(_)) == SumSeq([i \in 1..Len(ops) |-> F(ops[i])], Len(ops))
CombisOf(ops) == Cardinality({i \in 1..Len(ops) : ops[i].k \in {"combine", "file"}})
=============================================================================
