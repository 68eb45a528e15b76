------------------------------ MODULE Extreme -------------------------------
(* The reported smallest and largest coefficient of every subspace of the combined         *)
(* solution.                                                                                *)
EXTENDS Combine, FiniteSets
\* subspace of every named point (names are positions on a grid of level lmax)
SubspaceOfName(S) ==
  LET ref == Extents(S.lmax, S.B)
  IN TLCEval([x \in 1..Prod(ref) |-> SubspaceOf(VecIdx(x - 1, ref), S.lmax, S.B)])
\* subspaces of the sparse grid that some grid has
Present(S) == {s \in TruncSet(S.lmin, SparseTop(S)) : \E k \in DOMAIN S.g : \A d \in DOMAIN s : s[d] <= S.g[k][d]}
MinOfSet(A) == CHOOSE a \in A : \A b \in A : a <= b
MaxOfSet(A) == CHOOSE a \in A : \A b \in A : a >= b
\* smallest and largest coefficient of every subspace, given the grids' nodal values
Extremes(S, M, names, present, V) ==
  LET D == Sums(S, M, HierAll(S, V))
  IN TLCEval([s \in present |-> LET A == {D[x] : x \in {y \in DOMAIN names : names[y] = s}} IN <<MinOfSet(A), MaxOfSet(A)>>])
Merge(a, b) == [s \in DOMAIN a |-> <<IF a[s][1] < b[s][1] THEN a[s][1] ELSE b[s][1], IF a[s][2] > b[s][2] THEN a[s][2] ELSE b[s][2]>>]
\* a report: one line per subspace; nothing at all if nothing was collected
Lines(x) == IF x = <<>> THEN {} ELSE {s \o x[s] : s \in DOMAIN x}
=============================================================================
