-------------------------------- MODULE Eval --------------------------------
(* Evaluation of component grids: multilinear interpolation, norms, exchange of boundary   *)
(* layers. A grid is a sequence of values in linear order; coordinates are numerators over *)
(* 2^m[d] with m[d] >= L[d], results of interpolation are scaled by the product of         *)
(* 2^(m[d]-L[d]).                                                                          *)
EXTENDS Grids, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
\* index of the 1d point with coordinate number c (in units of the mesh width), -1 if there is none
IdxOfCoord(c, l, b) ==
  IF b = 0 THEN (IF c >= 1 /\ c < Pow2(l) THEN c - 1 ELSE -1)
  ELSE IF b = 1 THEN c % Pow2(l)
  ELSE (IF c >= 0 /\ c <= Pow2(l) THEN c ELSE -1)
\* the points whose hat functions are not zero at q, with the values of the functions there
Nodes(q, m, l, b) ==
  LET s == Pow2(m - l)
      k == q \div s
      f == q % s
  IN {n \in {<<IdxOfCoord(k, l, b), s - f>>, <<IdxOfCoord(k + 1, l, b), f>>} : n[1] >= 0 /\ n[2] > 0}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
RECURSIVE EvalFrom(_, _, _, _, _, _, _, _)
\* in: the predicate of the points that count (all, or those of one process)
EvalFrom(v, L, B, m, q, in, d, x) ==
  IF d > Len(L) THEN (IF in[LinIdx(x, Extents(L, B)) + 1] THEN v[LinIdx(x, Extents(L, B)) + 1] ELSE 0)
  ELSE LET N == Nodes(q[d], m[d], L[d], B[d])
       IN SumOver(N, [n \in N |-> n[2] * EvalFrom(v, L, B, m, q, in, d + 1, Append(x, n[1]))])
EvalPart(v, L, B, m, q, in) == EvalFrom(v, L, B, m, q, in, 1, <<>>)
Interpolate(v, L, B, m, q) == EvalPart(v, L, B, m, q, [i \in DOMAIN v |-> TRUE])
\* ------------------------------------------------------------------ norms
RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(v, k) == IF k = 0 THEN 0 ELSE Max2(Abs(v[k]), MaxAbsTo(v, k - 1))
MaxNorm(v) == MaxAbsTo(v, Len(v))
\* integral of a point's basis function, in units of 2^-(sum of levels + number of dimensions with both ends)
RECURSIVE WeightTo(_, _, _, _)
WeightTo(x, ext, B, k) == IF k = 0 THEN 1 ELSE (IF B[k] = 2 THEN (IF x[k] = 0 \/ x[k] = ext[k] - 1 THEN 1 ELSE 2) ELSE 1) * WeightTo(x, ext, B, k - 1)
RECURSIVE WSum(_, _, _, _, _)
WSum(v, ext, B, p, i) ==
  IF i = 0 THEN 0
  ELSE WeightTo(VecIdx(i - 1, ext), ext, B, Len(B)) * (IF p = 1 THEN Abs(v[i]) ELSE v[i] * v[i]) + WSum(v, ext, B, p, i - 1)
OneNorm(v, L, B) == WSum(v, Extents(L, B), B, 1, Len(v))
SquareSum(v, L, B) == WSum(v, Extents(L, B), B, 2, Len(v))
\* ------------------------------------------------------------------ boundary layers
LowToUp(v, L, B, d) ==
  LET ext == Extents(L, B)
  IN TLCEval([i \in DOMAIN v |-> LET x == VecIdx(i - 1, ext)
                         IN IF x[d] = ext[d] - 1 THEN v[LinIdx([x EXCEPT ![d] = 0], ext) + 1] ELSE v[i]])
\* what the process with bounds lo, up receives from below in dimension d: the layer under its lowest one;
\* of a grid with one end the lowest process receives the uppermost layer, otherwise nothing
GhostLayer(v, L, B, lo, up, d) ==
  LET ext == Extents(L, B)
      src == IF lo[d] > 0 THEN lo[d] - 1 ELSE ext[d] - 1
      lext == [k \in DOMAIN lo |-> IF k = d THEN 1 ELSE up[k] - lo[k]]
  IN IF lo[d] = 0 /\ B[d] # 1 THEN <<>>
     ELSE [i \in 1..Prod(lext) |-> LET y == VecIdx(i - 1, lext)
                                       x == [k \in DOMAIN lo |-> IF k = d THEN src ELSE lo[k] + y[k]]
                                   IN v[LinIdx(x, ext) + 1]]
\* values at the corners, the last dimension fastest
Corner(v, L, B, k) ==
  LET ext == Extents(L, B)
      x == [d \in DOMAIN L |-> IF (k \div Pow2(Len(L) - d)) % 2 = 1 THEN ext[d] - 1 ELSE 0]
  IN v[LinIdx(x, ext) + 1]
Corners(v, L, B) == [k \in 1..Pow2(Len(L)) |-> Corner(v, L, B, k - 1)]
=============================================================================
