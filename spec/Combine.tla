------------------------------ MODULE Combine -------------------------------
(* One combination step on the level of grid values: hierarchize every component grid,    *)
(* add up coefficient x hierarchical coefficient in every subspace of the sparse grid,     *)
(* write the sums back, dehierarchize. Grids are sequences of values in linear order.      *)
EXTENDS Hier, Scheme
\* setup S: g (levels of the grids), co (coefficients), B, lmin, lmax, red, bases, dims
SparseTop(S) == [d \in DOMAIN S.lmax |-> IF S.lmax[d] - S.red[d] > S.lmin[d] THEN S.lmax[d] - S.red[d] ELSE S.lmin[d]]
\* grids without boundary points in some dimension are hierarchized completely
HierMin(S) == IF \E d \in DOMAIN S.B : S.B[d] = 0 THEN [d \in DOMAIN S.B |-> 0] ELSE S.lmin
\* names of points: linear index on a grid of level lmax
NamesOf(L, S) ==
  LET ext == Extents(L, S.B)
      ref == Extents(S.lmax, S.B)
  IN TLCEval([i \in 1..Prod(ext) |->
        LET x == VecIdx(i - 1, ext)
        IN 1 + LinIdx([d \in DOMAIN L |-> CoordNum(x[d], S.B[d]) * Pow2(S.lmax[d] - L[d]) - (IF S.B[d] > 0 THEN 0 ELSE 1)], ref)])
\* everything that depends only on the setup
Prepare(S) ==
  LET N == Prod(Extents(S.lmax, S.B))
      sg == TLCEval(TruncSet(S.lmin, SparseTop(S)))
      nm == TLCEval([k \in DOMAIN S.g |-> NamesOf(S.g[k], S)])
      sub == [k \in DOMAIN S.g |-> LET ext == Extents(S.g[k], S.B) IN [i \in DOMAIN nm[k] |-> SubspaceOf(VecIdx(i - 1, ext), S.g[k], S.B)]]
  IN [nm |-> nm, N |-> N,
      in |-> [k \in DOMAIN S.g |-> [i \in DOMAIN nm[k] |-> sub[k][i] \in sg]],
      \* positions of a named point on every grid (0: not there)
      at |-> [k \in DOMAIN S.g |-> LET f == nm[k]
                                       D == {f[i] : i \in DOMAIN f}
                                       inv == TLCEval([x \in D |-> CHOOSE i \in DOMAIN f : f[i] = x])
                                   IN TLCEval([x \in 1..N |-> IF x \in D THEN inv[x] ELSE 0])]]
RECURSIVE Weighted(_, _, _, _, _)
Weighted(S, M, H, x, k) == IF k = 0 THEN 0 ELSE (IF M.at[k][x] = 0 THEN 0 ELSE S.co[k] * H[k][M.at[k][x]]) + Weighted(S, M, H, x, k - 1)
HierAll(S, V) == TLCEval([k \in DOMAIN S.g |-> Hierarchize(V[k], S.g[k], S.B, S.bases, S.dims, HierMin(S))])
\* sum over all grids for every point any grid has
Sums(S, M, H) == TLCEval([x \in 1..M.N |-> IF \E k \in DOMAIN S.g : M.at[k][x] # 0 THEN Weighted(S, M, H, x, Len(S.g)) ELSE 0])
\* grids after the sums D were written back and dehierarchized
Distribute(S, M, H, D) ==
  [k \in DOMAIN S.g |->
     LET W == TLCEval([i \in DOMAIN H[k] |-> IF M.in[k][i] THEN D[M.nm[k][i]] ELSE H[k][i]])
     IN Dehierarchize(W, S.g[k], S.B, S.bases, S.dims, HierMin(S))]
CombineAll(S, M, V) == LET H == HierAll(S, V) IN Distribute(S, M, H, Sums(S, M, H))
\* ---- without hierarchization every point is combined on its own: point with coordinates p / 2^lmax
HasPoint(S, k, p) == \A d \in DOMAIN p : p[d] % Pow2(S.lmax[d] - S.g[k][d]) = 0
RECURSIVE PointSum(_, _, _, _)
PointSum(S, p, u, k) == IF k = 0 THEN 0 ELSE (IF HasPoint(S, k, p) THEN S.co[k] * u[k] ELSE 0) + PointSum(S, p, u, k - 1)
PointSubspace(S, p) == SubspaceOf([d \in DOMAIN p |-> p[d] - (IF S.B[d] > 0 THEN 0 ELSE 1)], S.lmax, S.B)
\* values of all grids at p afterwards, given those before (0 on grids without the point)
CombinePoint(S, sg, p, u) ==
  [k \in DOMAIN S.g |-> IF ~HasPoint(S, k, p) THEN 0 ELSE IF PointSubspace(S, p) \in sg THEN PointSum(S, p, u, Len(S.g)) ELSE u[k]]
=============================================================================
