------------------------------- MODULE Sparse -------------------------------
(* The distributed sparse grid. Points are named by their linear index on a common finest *)
(* grid (level R, decomposition dec), so points of different component grids at the same  *)
(* coordinate have the same name. A sparse grid is a set of hierarchical subspaces; each  *)
(* point lies in exactly one subspace and on exactly one process.                         *)
EXTENDS Grids

\* names of the points process c holds of subspace V, in storage order
SubspaceOn(V, R, B, dec, c) ==
  LET ext == Extents(R, B)
      lo == LowerOf(dec, c)
      up == UpperOf(dec, ext, c)
      lext == Sub(up, lo)
      loc == PointsOfSubspace(V, R, B, lo, up)
  IN [k \in DOMAIN loc |-> LinIdx(Add(VecIdx(loc[k], lext), lo), ext)]
\* subspace of a point
SubspaceOfName(p, R, B) == SubspaceOf(VecIdx(p, Extents(R, B)), R, B)
\* does the component grid of level L have the subspace of the point
HasPoint(L, sub) == LeqV(sub, L)
\* 0-based linear index, on the component grid of level L, of the point named p
IndexOn(p, L, R, B) ==
  LET x == VecIdx(p, Extents(R, B))
      y == [d \in DOMAIN L |-> CoordNum(x[d], B[d]) \div Pow2(R[d] - L[d]) - (IF B[d] > 0 THEN 0 ELSE 1)]
  IN LinIdx(y, Extents(L, B))
\* name of the point with linear index i on the component grid of level L
NameOf(i, L, R, B) ==
  LET x == VecIdx(i, Extents(L, B))
      y == [d \in DOMAIN L |-> CoordNum(x[d], B[d]) * Pow2(R[d] - L[d]) - (IF B[d] > 0 THEN 0 ELSE 1)]
  IN LinIdx(y, Extents(R, B))
\* positive vectors below L
DownSet(L) == {v \in [DOMAIN L -> 1..(CHOOSE m \in {L[d] : d \in DOMAIN L} : \A d \in DOMAIN L : L[d] <= m)] : LeqV(v, L)}
=============================================================================
