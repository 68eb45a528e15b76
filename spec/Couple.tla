------------------------------ MODULE Couple --------------------------------
(* Systems that are coupled through files: which subspaces they exchange, what every       *)
(* system has after a combination step, and which files are there.                         *)
EXTENDS Combine, FiniteSets
\* setup C: as in Combine, and ns (systems), gs (groups per system), sys (system of a grid), np, parts, mode, keep, reuse, steps
Others(C, y) == (1..C.ns) \ {y}
\* ---- sizes: R[y][g][p] = sizes of the subspaces in group g of system y at position p
OwnSizes(C, R, y, p) == TLCEval([s \in DOMAIN R[y][1][p] |-> MaxOf({R[y][g][p][s] : g \in 1..C.gs[y]})])
\* exchanged by all systems alike: what at least two systems have (all, if there is one system)
ExtraSizes(C, R, p) ==
  LET own == [y \in 1..C.ns |-> OwnSizes(C, R, y, p)]
  IN TLCEval([s \in DOMAIN own[1] |->
       IF C.ns = 1 THEN own[1][s]
       ELSE LET have == {y \in 1..C.ns : own[y][s] > 0}
            IN IF Cardinality(have) >= 2 THEN MaxOf({own[y][s] : y \in have}) ELSE 0])
\* between groups: the whole sparse grid, or the subspaces that more than one group has
Level(C, n) ==
  IF C.variant = "sg"
  THEN TLCEval([g \in DOMAIN n |-> [s \in DOMAIN n[1] |-> MaxOf({n[h][s] : h \in DOMAIN n})]])
  ELSE TLCEval([g \in DOMAIN n |-> [s \in DOMAIN n[1] |->
         IF Cardinality({h \in DOMAIN n : n[h][s] > 0}) > 1 THEN MaxOf({n[h][s] : h \in DOMAIN n}) ELSE n[g][s]]])
\* sizes of all groups of system y at position p after the exchange, where group io did it
SizesAfter(C, R, y, p, io) ==
  LET n0 == Level(C, [g \in 1..C.gs[y] |-> R[y][g][p]])
      x == ExtraSizes(C, R, p)
      n1 == TLCEval([n0 EXCEPT ![io] = [s \in DOMAIN x |-> IF x[s] > @[s] THEN x[s] ELSE @[s]]])
  IN Level(C, n1)
\* through the broker: all subspaces that one of the systems has, or (extra) those that both have
TcpSizes(C, R, y, p) ==
  IF C.extra THEN OwnSizes(C, R, y, p)
  ELSE LET a == OwnSizes(C, R, 1, p)
           b == OwnSizes(C, R, 2, p)
       IN TLCEval([s \in DOMAIN a |-> IF a[s] > b[s] THEN a[s] ELSE b[s]])
TcpExtra(C, R, p) ==
  LET a == OwnSizes(C, R, 1, p)
      b == OwnSizes(C, R, 2, p)
  IN TLCEval([s \in DOMAIN a |-> IF a[s] < b[s] THEN a[s] ELSE b[s]])
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
\* ---- values
RECURSIVE WeightedIn(_, _, _, _, _, _)
WeightedIn(C, M, H, y, x, k) ==
  IF k = 0 THEN 0
  ELSE (IF C.sys[k] # y \/ M.at[k][x] = 0 THEN 0 ELSE C.co[k] * H[k][M.at[k][x]]) + WeightedIn(C, M, H, y, x, k - 1)
Holders(C, M, x) == {C.sys[k] : k \in {j \in DOMAIN C.g : M.at[j][x] # 0}}
\* what system y has in point x: the sum of all systems if at least two have the point, or its own
Combined(C, M, H, y) ==
  TLCEval([x \in 1..M.N |->
     LET h == Holders(C, M, x)
     IN IF y \notin h THEN 0
        ELSE IF Cardinality(h) >= 2 THEN Weighted(C, M, H, x, Len(C.g)) ELSE WeightedIn(C, M, H, y, x, Len(C.g))])
CoupledStep(C, M, V) ==
  LET H == HierAll(C, V)
      D == [y \in 1..C.ns |-> Combined(C, M, H, y)]
  IN [k \in DOMAIN C.g |->
       LET W == TLCEval([i \in DOMAIN H[k] |-> IF M.in[k][i] THEN D[C.sys[k]][M.nm[k][i]] ELSE H[k][i]])
       IN Dehierarchize(W, C.g[k], C.B, C.bases, C.dims, HierMin(C))]
\* large grids without hierarchization, looked at in some points: a point only one system has is combined there alone
CoupledPoints(C, sg, pts, V) ==
  LET P == TLCEval([j \in DOMAIN pts |-> CombinePoint(C, sg, pts[j], [k \in DOMAIN C.g |-> V[k][j]])])
  IN TLCEval([k \in DOMAIN C.g |-> [j \in DOMAIN pts |-> P[j][k]]])
\* ---- files that remain
Num(i) == ToString(i)
StepName(C, s) == Num(IF C.reuse THEN s % 2 ELSE s)
DataNames(C) ==
  IF C.mode = "copy"
  THEN {"g_" \o Num(a - 1) \o "to" \o Num(b - 1) \o "_" \o Num(s) : a \in 1..C.ns, b \in 1..C.ns, s \in 1..C.steps}
       \ {"g_" \o Num(a - 1) \o "to" \o Num(a - 1) \o "_" \o Num(s) : a \in 1..C.ns, s \in 1..C.steps}
  ELSE {"g_" \o Num(a - 1) \o "_" \o StepName(C, s) : a \in 1..C.ns, s \in 1..C.steps}
\* files of others (by) are never touched
Remaining(C) ==
  {C.by[i] : i \in DOMAIN C.by} \cup
  {"z_" \o Num(a - 1) : a \in 1..C.ns} \cup {"z_" \o Num(a - 1) \o "_tok" : a \in 1..C.ns}
  \cup (IF C.keep THEN {n \o "_0.part" \o Num(p) : n \in DataNames(C), p \in 0..C.parts - 1} ELSE {})
=============================================================================
