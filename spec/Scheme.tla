------------------------------- MODULE Scheme -------------------------------
(* Combination schemes: downward-closed index sets between lmin and lmax, the inclusion-   *)
(* exclusion coefficients of their grids, the levels of the sparse grid, the extra grids of *)
(* the fault tolerant scheme, the distribution over groups and systems.                     *)
EXTENDS Grids
Box(lo, hi) == LET m == CHOOSE x \in {hi[d] : d \in DOMAIN hi} : \A d \in DOMAIN hi : hi[d] <= x
                   n == CHOOSE x \in {lo[d] : d \in DOMAIN lo} : \A d \in DOMAIN lo : lo[d] >= x
               IN {l \in [DOMAIN lo -> n..m] : LeqV(lo, l) /\ LeqV(l, hi)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Diff(lmin, lmax) == [d \in DOMAIN lmin |-> lmax[d] - lmin[d]]
\* dimensions that are refined at all
Refined(lmin, lmax) == {d \in DOMAIN lmin : lmax[d] > lmin[d]}
\* classical scheme: diagonal as wide as the narrowest refined dimension allows
ClassWidth(lmin, lmax) == IF Refined(lmin, lmax) = {} THEN 0 ELSE MinOf({lmax[d] - lmin[d] : d \in Refined(lmin, lmax)})
ClassLow(lmin, lmax) == [d \in DOMAIN lmin |-> IF lmax[d] > lmin[d] THEN lmax[d] - ClassWidth(lmin, lmax) ELSE lmax[d]]
ClassSet(lmin, lmax) ==
  LET lo == ClassLow(lmin, lmax) IN {l \in Box(lo, lmax) : SumSeq(l) <= SumSeq(lo) + ClassWidth(lmin, lmax)}
\* levels of the truncated sparse grid: every partial sum is bounded by its own diagonal
RECURSIVE SumOver(_, _)
SumOver(s, K) == IF K = {} THEN 0 ELSE LET k == CHOOSE x \in K : TRUE IN s[k] + SumOver(s, K \ {k})
TruncOk(l, lmax, c) == \A K \in SUBSET DOMAIN l : Cardinality(K) >= 2 => SumOver(l, K) <= SumOver(lmax, K) - (Cardinality(K) - 1) * c
TruncSet(lmin, lmax) ==
  LET c == MinOf({lmax[d] - lmin[d] : d \in DOMAIN lmin})
  IN {l \in Box([d \in DOMAIN lmin |-> 1], lmax) : TruncOk(l, lmax, c)}
\* adaptive scheme: diagonal through the furthest corner, inside the sparse grid
AdaptSum(lmin, lmax) == SumSeq(lmin) + MaxOf({lmax[d] - lmin[d] : d \in DOMAIN lmin})
AdaptSet(lmin, lmax) ==
  LET c == MinOf({lmax[d] - lmin[d] : d \in DOMAIN lmin})
  IN {l \in Box(lmin, lmax) : SumSeq(l) <= AdaptSum(lmin, lmax) /\ TruncOk(l, lmax, c)}
\* inclusion-exclusion coefficient of a grid with respect to the index set
Steps(l) == [DOMAIN l -> {0, 1}]
RECURSIVE SumSigns(_)
SumSigns(Z) == IF Z = {} THEN 0 ELSE LET z == CHOOSE x \in Z : TRUE IN (IF SumSeq(z) % 2 = 0 THEN 1 ELSE -1) + SumSigns(Z \ {z})
CoefOf(l, I) == SumSigns({z \in Steps(l) : Add(l, z) \in I})
SchemeOf(I) == {<<l, c>> \in {<<m, CoefOf(m, I)>> : m \in I} : c # 0}
Levels(S) == {x[1] : x \in S}
Below(l) == Box([d \in DOMAIN l |-> 1], l)
DownOf(G) == UNION {Below(l) : l \in G}
RECURSIVE SumCoef(_)
SumCoef(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumCoef(S \ {x})
\* every subspace the scheme covers is counted once
CountsOnce(S) == \A v \in DownOf(Levels(S)) : SumCoef({x \in S : LeqV(v, x[1])}) = 1
\* grids the fault tolerant scheme adds, with coefficient zero: the next two diagonals
ExtraGrids(I, n, eff) == {l \in I : SumSeq(l) \in {n - eff, n - eff - 1}}
\* ---------------------------------------------------------------- numbers of points
SubspacePoints1(v, b) == IF v = 1 THEN 1 + b ELSE Pow2(v - 1)
SubspacePoints(V, B) == Prod([d \in DOMAIN V |-> SubspacePoints1(V[d], B[d])])
RECURSIVE SumPoints(_, _)
SumPoints(S, B) == IF S = {} THEN 0 ELSE LET v == CHOOSE x \in S : TRUE IN SubspacePoints(v, B) + SumPoints(S \ {v}, B)
\* ---------------------------------------------------------------- distribution
\* parts is a sequence of sequences of numbers 1..n: each number in exactly one part, once
Partition(parts, n) ==
  /\ \A g \in DOMAIN parts : \A i \in DOMAIN parts[g] : parts[g][i] \in 1..n
  /\ \A k \in 1..n : Cardinality({<<g, i>> \in UNION {{<<h, j>> : j \in DOMAIN parts[h]} : h \in DOMAIN parts} : parts[g][i] = k}) = 1
=============================================================================
