------------------------------- MODULE MCEval -------------------------------
(* All small grids with 0/1 values and all their decompositions: evaluation and norms add  *)
(* up over the processes, are exact at the grid points, reproduce constants, and are       *)
(* continuous across the periodic border.                                                  *)
EXTENDS Eval
CONSTANTS MaxL, Dim, MaxP, Extra
VARIABLES L, B, P, v
vars == <<L, B, P, v>>
Vecs(S) == [1..Dim -> S]
Init == /\ L \in Vecs(1..MaxL) /\ B \in Vecs(0..2)
        /\ P \in {p \in Vecs(1..MaxP) : \A d \in 1..Dim : p[d] <= NumPoints(L[d], B[d])}
        /\ v \in [1..Prod(Extents(L, B)) -> 0..1]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
ext == Extents(L, B)
m == [d \in 1..Dim |-> L[d] + Extra]
Q == {q \in [1..Dim -> 0..Pow2(MaxL + Extra)] : \A d \in 1..Dim : q[d] <= Pow2(m[d])}
Dec == DefaultDec(L, B, P, FALSE)
Own(c) == [i \in 1..Prod(ext) |-> OwnerCoords(Dec, VecIdx(i - 1, ext)) = c]
Procs == {c \in Vecs(0..(MaxP - 1)) : \A d \in 1..Dim : c[d] < P[d]}
PartsAdd == \A q \in Q : Interpolate(v, L, B, m, q) = SumOver(Procs, [c \in Procs |-> EvalPart(v, L, B, m, q, Own(c))])
ExactAtPoints == \A i \in 1..Prod(ext) :
   LET x == VecIdx(i - 1, ext)
       q == [d \in 1..Dim |-> CoordNum(x[d], B[d]) * Pow2(Extra)]
   IN Interpolate(v, L, B, m, q) = v[i] * Pow2(Extra * Dim)
Constants == ((\A i \in DOMAIN v : v[i] = 1) /\ (\A d \in 1..Dim : B[d] > 0)) => \A q \in Q : Interpolate(v, L, B, m, q) = Pow2(Extra * Dim)
Periodic == \A d \in 1..Dim : B[d] = 1 => \A q \in Q : q[d] = 0 => Interpolate(v, L, B, m, q) = Interpolate(v, L, B, m, [q EXCEPT ![d] = Pow2(m[d])])
\* between neighbouring coordinates a value changes by at most one mesh weight
Zero == \A d \in 1..Dim : B[d] = 0 => \A q \in Q : (q[d] = 0 \/ q[d] = Pow2(m[d])) => Interpolate(v, L, B, m, q) = 0
\* the integral of the constant one function is the volume
Volume == (\A i \in DOMAIN v : v[i] = 1) /\ (\A d \in 1..Dim : B[d] > 0) =>
   OneNorm(v, L, B) = Pow2(SumSeq([d \in 1..Dim |-> L[d]])) * Pow2(Cardinality({d \in 1..Dim : B[d] = 2}))
MaxBound == \A q \in Q : Interpolate(v, L, B, m, q) <= MaxNorm(v) * Pow2(Extra * Dim)
=============================================================================
