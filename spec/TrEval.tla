------------------------------- MODULE TrEval -------------------------------
(* Recorded evaluations of distributed grids.                                             *)
EXTENDS Eval, TraceBase
VARIABLES c, v
tvars == <<l, c, v>>
TInit == l = 1 /\ c = [L |-> <<>>] /\ v = <<>>
TCase == /\ Is("case") /\ c' = Ev /\ v' = Ev.v /\ Len(Ev.v) = Prod(Extents(Ev.L, Ev.B))
\* res[r][k]: what rank r got for point k
TEval == /\ Is("eval")
         /\ \A k \in DOMAIN Ev.q : LET x == Interpolate(v, c.L, c.B, Ev.m, Ev.q[k]) IN \A r \in DOMAIN Ev.res : Ev.res[r][k] = x
         /\ UNCHANGED <<c, v>>
\* norms in the units of the specification; the two norm is documented as an approximation, its
\* normalisation is one of two powers of the mesh width (the square times both)
TNorm == /\ Is("norm")
         /\ \A r \in DOMAIN Ev.max : /\ Ev.max[r] = MaxNorm(v) /\ Ev.one[r] = OneNorm(v, c.L, c.B)
                                     /\ SquareSum(v, c.L, c.B) \in {Ev.two[r], Ev.two1[r]}
         /\ UNCHANGED <<c, v>>
TCorners == /\ Is("corners") /\ \A r \in DOMAIN Ev.res : Ev.res[r] = Corners(v, c.L, c.B) /\ UNCHANGED <<c, v>>
TUp == /\ Is("lowtoup") /\ v' = LowToUp(v, c.L, c.B, Ev.d) /\ Ev.v = v' /\ UNCHANGED c
TGhost == /\ Is("ghost")
          /\ \A r \in DOMAIN Ev.res : LET R == Ev.res[r] IN R.v = GhostLayer(v, c.L, c.B, R.lo, R.up, Ev.d)
          /\ UNCHANGED <<c, v>>
TGather == /\ Is("gather") /\ Ev.v = v /\ UNCHANGED <<c, v>>
\* a file holds the values in linear order and nothing else behind the header
TPlot == /\ Is("plot") /\ Ev.v = v /\ Ev.dims = Extents(c.L, c.B) /\ UNCHANGED <<c, v>>
\* VTK files: extents filled up to three dimensions, mesh widths as numbers of intervals where the
\* grid has its boundary points
TVtk == /\ Is("vtk") /\ Ev.v = v /\ Ev.count = Len(v)
        /\ \A d \in 1..3 : IF d > Len(c.L) THEN Ev.dims[d] = 1 /\ Ev.sp[d] = 1
                           ELSE Ev.dims[d] = Extents(c.L, c.B)[d] /\ (c.B[d] = 2 => Ev.sp[d] = 2^c.L[d])
        /\ UNCHANGED <<c, v>>
TNext == TCase \/ TEval \/ TNorm \/ TCorners \/ TUp \/ TGhost \/ TGather \/ TPlot \/ TVtk
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
