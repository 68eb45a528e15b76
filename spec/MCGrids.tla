------------------------------ MODULE MCGrids ------------------------------
(* Exhaustive model of grids and their decompositions: the environment picks a grid,   *)
(* a reference grid and a decomposition; then the processes claim their points.        *)
EXTENDS Grids, TLC
CONSTANTS MaxDim, MaxLevel, MaxProcs
VARIABLES phase, L, B, R, P, dec, rdec, claimed, todo
vars == <<phase, L, B, R, P, dec, rdec, claimed, todo>>

Vecs(S, n) == [1..n -> S]
AscTuples(n, m) == {s \in [1..n -> 0..(m - 1)] : s[1] = 0 /\ \A k \in 1..(n - 1) : s[k] < s[k + 1]}

Init == /\ phase = "pick" /\ L = <<>> /\ B = <<>> /\ R = <<>> /\ P = <<>>
        /\ dec = <<>> /\ rdec = <<>> /\ claimed = <<>> /\ todo = {}
\* the reference (finest) grid and a decomposition of it
PickGrid ==
  /\ phase = "pick"
  /\ \E n \in 1..MaxDim : \E l \in Vecs(1..MaxLevel, n), r \in Vecs(1..MaxLevel, n), b \in Vecs(0..2, n), p \in Vecs(1..MaxProcs, n) :
       /\ LeqV(l, r)
       /\ \A d \in 1..n : p[d] <= NumPoints(l[d], b[d])
       /\ L' = l /\ R' = r /\ B' = b /\ P' = p
  /\ phase' = "decompose" /\ UNCHANGED <<dec, rdec, claimed, todo>>
Prescribe ==
  /\ phase = "decompose"
  /\ \E f \in [DOMAIN L -> UNION {AscTuples(P[d], NumPoints(R[d], B[d])) : d \in DOMAIN L}] :
       /\ \A d \in DOMAIN L : f[d] \in AscTuples(P[d], NumPoints(R[d], B[d]))
       /\ rdec' = f /\ dec' = Downsample(f, R, L, B)
  /\ phase' = "claim" /\ todo' = {c \in [DOMAIN L -> 0..(MaxProcs - 1)] : \A d \in DOMAIN L : c[d] < P[d]}
  /\ UNCHANGED <<L, B, R, P, claimed>>
UseDefault ==
  /\ phase = "decompose"
  /\ \E fwd \in BOOLEAN : dec' = DefaultDec(L, B, P, fwd) /\ rdec' = DefaultDec(R, B, P, fwd)
  /\ phase' = "claimdef" /\ todo' = {c \in [DOMAIN L -> 0..(MaxProcs - 1)] : \A d \in DOMAIN L : c[d] < P[d]}
  /\ UNCHANGED <<L, B, R, P, claimed>>
\* every process claims the box given by the decomposition (order is irrelevant, so one step)
Claim ==
  /\ phase \in {"claim", "claimdef"} /\ todo # {}
  /\ LET ext == Extents(L, B)
     IN claimed' = [i \in 0..(Prod(ext) - 1) |->
                      {c \in todo : InBox(VecIdx(i, ext), LowerOf(dec, c), UpperOf(dec, ext, c))}]
  /\ todo' = {} /\ UNCHANGED <<phase, L, B, R, P, dec, rdec>>
Next == PickGrid \/ Prescribe \/ UseDefault \/ Claim
Spec == Init /\ [][Next]_vars

Done == phase \in {"claim", "claimdef"} /\ todo = {}
\* every point has exactly one owner, and it is the one every process computes
ExactPartition == Done => \A i \in DOMAIN claimed :
    LET o == OwnerCoords(dec, VecIdx(i, Extents(L, B))) IN claimed[i] = {o}
\* linear <-> vector conversion is a bijection
Bijection == Done => LET ext == Extents(L, B) IN
    /\ \A i \in DOMAIN claimed : LinIdx(VecIdx(i, ext), ext) = i /\ InBox(VecIdx(i, ext), [d \in DOMAIN ext |-> 0], ext)
\* points of the coarse grid stay with the owner of the same coordinate on the reference grid
RefIdx(i, d) == Pow2(R[d] - L[d]) * CoordNum(i, B[d]) - (IF B[d] > 0 THEN 0 ELSE 1)
Nested == (phase = "claim" /\ todo = {}) => \A d \in DOMAIN L : \A i \in 0..(NumPoints(L[d], B[d]) - 1) :
    Owner1(rdec[d], RefIdx(i, d)) = Owner1(dec[d], i)
\* level/index determine the point; both ancestors are on a lower level
Hier == (phase # "pick") => \A d \in DOMAIN L :
    LET l == L[d] b == B[d] n == NumPoints(l, b) IN
    /\ \A i, j \in 0..(n - 1) : (Level1(i, l, b) = Level1(j, l, b) /\ Index1(i, l, b) = Index1(j, l, b)) => i = j
    /\ \A i \in 0..(n - 1) : LET v == Level1(i, l, b) p == LeftPred(i, l, b) q == RightPred(i, l, b) IN
         /\ v \in 0..l
         /\ (p >= 0 => Level1(p, l, b) < v) /\ ((q >= 0 /\ q < n) => Level1(q, l, b) < v)
=============================================================================
