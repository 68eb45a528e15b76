------------------------------ MODULE TrEvalC -------------------------------
(* Recorded evaluations of whole combinations: interpolation and norms over all grids of   *)
(* all groups, and the combined solution evaluated on a full grid.                         *)
EXTENDS Combine, Eval, TraceBase
VARIABLES c, m, v, D
tvars == <<l, c, m, v, D>>
TInit == l = 1 /\ c = [g |-> <<>>] /\ m = [N |-> 0] /\ v = <<>> /\ D = <<>>
TCase == /\ Is("case") /\ c' = Ev /\ m' = Prepare(Ev) /\ v' = <<>> /\ D' = <<>>
TRun == /\ Is("run") /\ v' = Ev.v /\ Len(v') = c.nsp /\ D' = TLCEval([s \in DOMAIN Ev.v |-> Sums(c, m, HierAll(c, Ev.v[s]))]) /\ UNCHANGED <<c, m>>
TCombine == /\ Is("combine") /\ v' = TLCEval([s \in DOMAIN v |-> Distribute(c, m, HierAll(c, v[s]), D[s])]) /\ Ev.v = v' /\ UNCHANGED <<c, m, D>>
\* results are scaled by 2^(sum of lmax - lmin); the interpolant of grid k by 2^(sum of lmax - its level)
TInterp ==
  /\ Is("interp") /\ c.nsp = 1
  /\ \A p \in DOMAIN Ev.q :
       LET at == [k \in DOMAIN c.g |-> c.co[k] * Interpolate(v[1][k], c.g[k], c.B, c.lmax, Ev.q[p])
                                       * Pow2(SumSeq(Sub(c.g[k], c.lmin)))]
       IN \A r \in DOMAIN Ev.res : Ev.res[r][p] = SumSeq(at)
  /\ UNCHANGED <<c, m, v, D>>
\* every process reports the maximum norms of the tasks of its group, all groups together all tasks
TNorms ==
  /\ Is("norms")
  /\ \A r \in DOMAIN Ev.res :
       /\ {Ev.res[r][i][1] : i \in DOMAIN Ev.res[r]} = {k \in DOMAIN c.g : c.owner[k] = (r - 1) \div c.np}
       /\ \A i \in DOMAIN Ev.res[r] : Ev.res[r][i][2] = MaxNorm(v[1][Ev.res[r][i][1]])
  /\ UNCHANGED <<c, m, v, D>>
\* the sparse grid's coefficients on a grid of another level; coefficients it does not have are zero
Has(x) == \E k \in DOMAIN c.g : m.at[k][x] # 0
SG == TruncSet(c.lmin, SparseTop(c))
OnLevel(L, s) ==
  LET nm == NamesOf(L, c)
      sg == TLCEval(SG)
      W == TLCEval([i \in DOMAIN nm |-> IF SubspaceOf(VecIdx(i - 1, Extents(L, c.B)), L, c.B) \in sg /\ Has(nm[i]) THEN D[s][nm[i]] ELSE 0])
  IN Dehierarchize(W, L, c.B, c.bases, c.dims, HierMin(c))
TPlot == /\ Is("plot") /\ Ev.v = OnLevel(Ev.lev, Ev.n) /\ UNCHANGED <<c, m, v, D>>
TNext == TCase \/ TRun \/ TCombine \/ TInterp \/ TNorms \/ TPlot
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
