------------------------------ MODULE TrSparse ------------------------------
(* Recorded behaviour of distributed sparse grids.                                        *)
EXTENDS Sparse, TraceBase
VARIABLES c, sub, reg, alloc, data
tvars == <<l, c, sub, reg, alloc, data>>
\* sub[r][k]: names of the points of subspace k on process r; c.of[p]: number of p's subspace (0: none)
TInit == l = 1 /\ c = [N |-> 0] /\ sub = <<>> /\ reg = {} /\ alloc = {} /\ data = <<>>
TCase ==
  /\ Is("case")
  /\ LET e == Ev
         N == Prod(Extents(e.R, e.B))
         pos(v) == IF \E k \in DOMAIN e.sg : e.sg[k] = v THEN CHOOSE k \in DOMAIN e.sg : e.sg[k] = v ELSE 0
     IN /\ c' = [R |-> e.R, B |-> e.B, sg |-> e.sg, N |-> N, lv |-> [p \in 1..N |-> SubspaceOfName(p - 1, e.R, e.B)],
                 of |-> [p \in 1..N |-> pos(SubspaceOfName(p - 1, e.R, e.B))]]
        /\ sub' = [r \in DOMAIN e.coords |-> [k \in DOMAIN e.sg |-> IF LeqV(e.sg[k], e.R) THEN SubspaceOn(e.sg[k], e.R, e.B, e.dec, e.coords[r]) ELSE <<>>]]
        /\ \A i, j \in DOMAIN e.sg : e.sg[i] = e.sg[j] => i = j
        /\ reg' = {} /\ alloc' = {} /\ data' = [p \in 1..N |-> 0]
Known(k) == \E g \in reg : LeqV(c.sg[k], g)
KnownP(k) == \E g \in reg' : LeqV(c.sg[k], g)
SizesOk(sz) == \A r \in DOMAIN sub : sz[r] = [k \in DOMAIN c.sg |-> IF KnownP(k) THEN Len(sub[r][k]) ELSE 0]
DataOk(d) == \A r \in DOMAIN sub : d[r] = [k \in DOMAIN c.sg |->
               IF (k - 1) \in alloc' /\ KnownP(k) THEN [i \in DOMAIN sub[r][k] |-> data'[sub[r][k][i] + 1]] ELSE <<>>]
Live(p) == LET k == c.of[p] IN k > 0 /\ (k - 1) \in alloc /\ Known(k)
\* a component grid announces its subspaces
TReg == /\ Is("reg") /\ reg' = reg \cup {Ev.g} /\ SizesOk(Ev.sz) /\ UNCHANGED <<c, sub, alloc, data>>
\* memory for a set of subspaces (all zero)
TAlloc == /\ Is("alloc") /\ alloc' = {Ev.a[i] : i \in DOMAIN Ev.a} /\ data' = [p \in 1..c.N |-> 0]
          /\ UNCHANGED <<c, sub, reg>> /\ SizesOk(Ev.sz) /\ DataOk(Ev.d)
TAdd == /\ Is("add")
        /\ LET e == Ev IN
           /\ Len(e.v) = Prod(Extents(e.g, c.B))
           /\ data' = [p \in 1..c.N |-> IF Live(p) /\ LeqV(c.lv[p], e.g) THEN data[p] + e.co * e.v[IndexOn(p - 1, e.g, c.R, c.B) + 1] ELSE data[p]]
           /\ UNCHANGED <<c, sub, reg, alloc>> /\ DataOk(e.d)
\* arbitrary new contents
TSet == /\ Is("set")
        /\ data' = [p \in 1..c.N |-> IF Live(p) THEN Ev.v[p] ELSE data[p]]
        /\ UNCHANGED <<c, sub, reg, alloc>> /\ DataOk(Ev.d)
TExtract == /\ Is("extract")
            /\ LET e == Ev
                   n == Prod(Extents(e.g, c.B))
                   name == [i \in 1..n |-> NameOf(i - 1, e.g, c.R, c.B) + 1]
               IN /\ e.w = [i \in 1..n |-> IF Live(name[i]) THEN data[name[i]] ELSE e.v[i]]
                  /\ SumSeq(e.nc) = Cardinality({i \in 1..n : Live(name[i])})
            /\ UNCHANGED <<c, sub, reg, alloc, data>>
\* smallest and largest value of every subspace, over all processes that have points of it
TMinMax == /\ Is("minmax")
           /\ \A r \in DOMAIN sub : \A k \in DOMAIN c.sg :
                LET S == {data[sub[r][k][i] + 1] : i \in DOMAIN sub[r][k]} IN
                IF (k - 1) \in alloc /\ Known(k) /\ S # {}
                THEN /\ Ev.mi[r][k] \in S /\ Ev.ma[r][k] \in S
                     /\ \A x \in S : Ev.mi[r][k] <= x /\ x <= Ev.ma[r][k]
                ELSE TRUE
           /\ UNCHANGED <<c, sub, reg, alloc, data>>
TEnd == Is("end") /\ UNCHANGED <<c, sub, reg, alloc, data>>
TNext == TCase \/ TReg \/ TAlloc \/ TAdd \/ TSet \/ TExtract \/ TMinMax \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
