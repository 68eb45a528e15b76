------------------------------- MODULE Grids -------------------------------
(* Component grids of the combination technique: levels, points, hierarchical levels, *)
(* domain decompositions, and the conversions between the index spaces.               *)
(* Vectors are sequences over 1..dim; grid indices start at 0 as in the code.         *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)

RECURSIVE Ctz(_)
Ctz(n) == IF n % 2 = 1 THEN 0 ELSE 1 + Ctz(n \div 2)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == -((-a) \div b)              \* b > 0; TLA+ \div rounds down

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE ProdTo(_, _)
ProdTo(s, k) == IF k = 0 THEN 1 ELSE s[k] * ProdTo(s, k - 1)
Prod(s) == ProdTo(s, Len(s))

\* ---------------------------------------------------------------- points
\* boundary type b: 0 no boundary points, 1 only the lower one (periodic), 2 both
NumPoints(l, b) == Pow2(l) - 1 + b
Extents(L, B) == [d \in DOMAIN L |-> NumPoints(L[d], B[d])]
\* coordinate of 1d index i in units of 2^-l
CoordNum(i, b) == IF b > 0 THEN i ELSE i + 1
\* hierarchical level of 1d index i on a level-l grid; 0 for the domain border
Level1(i, l, b) == LET n == CoordNum(i, b) IN IF n = 0 THEN 0 ELSE l - Ctz(n)
\* index within its hierarchical level
Index1(i, l, b) == LET n == CoordNum(i, b) IN IF n = 0 THEN 0 ELSE n \div Pow2(Ctz(n))
\* level of the hierarchical subspace the point belongs to: border points go to level one
SubLevel1(i, l, b) == Max2(1, Level1(i, l, b))

\* hierarchical ancestors on both sides; -1 if there is none
LeftPred(i, l, b) == LET v == Level1(i, l, b) IN IF v = 0 THEN -1 ELSE i - Pow2(l - v)
RightPred(i, l, b) ==
  LET v == Level1(i, l, b)
      r == i + Pow2(l - v)
      n == NumPoints(l, b)
  IN IF v = 0 THEN -1
     ELSE IF b = 1 /\ r = n THEN n            \* the virtual periodic copy of index 0
     ELSE IF r > n - 1 THEN -1 ELSE r

\* ---------------------------------------------------------------- linearisation (first dimension fastest)
RECURSIVE LinTo(_, _, _)
LinTo(x, ext, k) == IF k > Len(ext) THEN 0 ELSE x[k] + ext[k] * LinTo(x, ext, k + 1)
LinIdx(x, ext) == LinTo(x, ext, 1)
VecIdx(i, ext) == [d \in DOMAIN ext |-> (i \div ProdTo(ext, d - 1)) % ext[d]]

Add(x, y) == [d \in DOMAIN x |-> x[d] + y[d]]
Sub(x, y) == [d \in DOMAIN x |-> x[d] - y[d]]

\* ---------------------------------------------------------------- decompositions
\* dec[d][k+1] is the first 1d index of the processes with coordinate k in dimension d
\* (n * k) / p rounded up or down, without the product
Share(n, k, p, up) == (n \div p) * k + (IF up THEN CeilDiv((n % p) * k, p) ELSE ((n % p) * k) \div p)
DefaultDec(L, B, P, fwd) == [d \in DOMAIN L |-> [k \in 1..P[d] |-> Share(NumPoints(L[d], B[d]), k - 1, P[d], fwd)]]
\* the decomposition a coarser grid gets so that every process keeps its coordinate interval
Downsample(dec, ref, L, B) ==
  [d \in DOMAIN dec |->
     [k \in DOMAIN dec[d] |->
        LET s == Pow2(ref[d] - L[d])
        IN IF B[d] > 0 THEN CeilDiv(dec[d][k], s)
           ELSE Max2(0, CeilDiv(dec[d][k] - (s - 1), s))]]
LowerOf(dec, c) == [d \in DOMAIN dec |-> dec[d][c[d] + 1]]
UpperOf(dec, ext, c) ==
  [d \in DOMAIN dec |-> IF c[d] + 1 < Len(dec[d]) THEN dec[d][c[d] + 2] ELSE ext[d]]
InBox(x, lo, up) == \A d \in DOMAIN x : lo[d] <= x[d] /\ x[d] < up[d]
\* process coordinate that owns 1d index i
Owner1(decd, i) == CHOOSE k \in 0..(Len(decd) - 1) :
                      decd[k + 1] <= i /\ (k + 2 > Len(decd) \/ i < decd[k + 2])
OwnerCoords(dec, x) == [d \in DOMAIN dec |-> Owner1(dec[d], x[d])]
ValidDec(dec, ext) ==
  \A d \in DOMAIN dec : /\ dec[d][1] = 0
                        /\ \A k \in 1..(Len(dec[d]) - 1) : dec[d][k] < dec[d][k + 1]
                        /\ dec[d][Len(dec[d])] < ext[d]

\* ---------------------------------------------------------------- hierarchical subspaces
LeqV(a, b) == \A d \in DOMAIN a : a[d] <= b[d]
\* local 1d indices (relative to lo) of the points of subspace level v, in increasing order
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Idx1OfLevel(v, l, b, lo, up) == Asc({i \in lo..(up - 1) : SubLevel1(i, l, b) = v})
\* local linear indices of subspace V's points inside [lo, up), first dimension fastest
RECURSIVE CrossLin(_, _, _)
CrossLin(oneD, lext, d) ==    \* sequence of partial linear sums over dimensions 1..d
  IF d = 0 THEN <<0>>
  ELSE LET low == CrossLin(oneD, lext, d - 1)
           off == ProdTo(lext, d - 1)
           n == Len(low)
       IN [k \in 1..(n * Len(oneD[d])) |->
             low[((k - 1) % n) + 1] + off * oneD[d][((k - 1) \div n) + 1]]
PointsOfSubspace(V, L, B, lo, up) ==
  IF ~LeqV(V, L) THEN <<>>
  ELSE LET oneD == [d \in DOMAIN L |-> LET s == Idx1OfLevel(V[d], L[d], B[d], lo[d], up[d])
                                       IN [k \in DOMAIN s |-> s[k] - lo[d]]]
           lext == Sub(up, lo)
       IN IF \E d \in DOMAIN L : oneD[d] = <<>> THEN <<>> ELSE CrossLin(oneD, lext, Len(L))
SubspaceOf(x, L, B) == [d \in DOMAIN L |-> SubLevel1(x[d], L[d], B[d])]
=============================================================================
