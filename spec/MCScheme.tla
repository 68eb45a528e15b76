------------------------------ MODULE MCScheme ------------------------------
(* All schemes of small dimension: inclusion-exclusion, closed form of the classical       *)
(* coefficients, cover by the sparse grid, fault tolerant extension.                       *)
EXTENDS Scheme
CONSTANTS MaxDim, MaxDiff, MaxMin
VARIABLES lmin, lmax
Dims == 1..MaxDim
Init == \E d \in Dims : \E a \in [1..d -> 1..MaxMin] : \E w \in [1..d -> 0..MaxDiff] :
           /\ (d >= 4 => \A i \in 1..d : w[i] <= 2 /\ a[i] = 1)
           /\ lmin = a /\ lmax = [i \in 1..d |-> a[i] + w[i]]
Next == UNCHANGED <<lmin, lmax>>
Spec == Init /\ [][Next]_<<lmin, lmax>>
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Sgn(p) == IF p % 2 = 0 THEN 1 ELSE -1
ClassOk ==
  LET S == SchemeOf(ClassSet(lmin, lmax))
      eff == Cardinality(Refined(lmin, lmax))
      n == SumSeq(ClassLow(lmin, lmax)) + ClassWidth(lmin, lmax)
  IN /\ S # {} /\ CountsOnce(S)
     /\ \A x \in S : LeqV(lmin, x[1]) /\ LeqV(x[1], lmax)
     /\ \A x \in S : x[2] = IF eff = 0 THEN 1 ELSE Sgn(n - SumSeq(x[1])) * Binom(eff - 1, n - SumSeq(x[1]))
     /\ eff > 0 => \A d \in Refined(lmin, lmax) : \E x \in S : x[1][d] = lmax[d]
     /\ eff > 0 => Levels(S) \cap ExtraGrids(ClassSet(lmin, lmax), n, eff) = {}
     /\ eff = Len(lmin) => DownOf(Levels(S)) \subseteq TruncSet(lmin, lmax)
     /\ (\A i, j \in DOMAIN lmin : lmax[i] - lmin[i] = lmax[j] - lmin[j]) => DownOf(Levels(S)) = TruncSet(lmin, lmax)
AdaptOk ==
  LET S == SchemeOf(AdaptSet(lmin, lmax))
      eff == Cardinality(Refined(lmin, lmax))
  IN /\ S # {} /\ CountsOnce(S)
     /\ \A x \in S : LeqV(lmin, x[1]) /\ LeqV(x[1], lmax)
     /\ \A d \in DOMAIN lmin : \E x \in S : x[1][d] = lmax[d]
     /\ DownOf(Levels(S)) \subseteq TruncSet(lmin, lmax)
     /\ eff > 0 => Levels(S) \cap ExtraGrids({l \in TruncSet(lmin, lmax) : LeqV(lmin, l)}, AdaptSum(lmin, lmax), eff) = {}
     /\ (\A i, j \in DOMAIN lmin : lmax[i] - lmin[i] = lmax[j] - lmin[j]) => S = SchemeOf(ClassSet(lmin, lmax))
     \* the cover's maximal grids have coefficient one
     /\ DownOf({x[1] : x \in {y \in S : y[2] = 1}}) = DownOf(Levels(S))
=============================================================================
