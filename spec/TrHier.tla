------------------------------- MODULE TrHier -------------------------------
(* Recorded basis changes of distributed grids: after every operation the values of all   *)
(* points must be the ones of the (undistributed) specification.                          *)
EXTENDS Hier, TraceBase
VARIABLES c, v
tvars == <<l, c, v>>
TInit == l = 1 /\ c = [L |-> <<>>] /\ v = <<>>
TCase == /\ Is("case")
         /\ c' = [L |-> Ev.L, B |-> Ev.B, bases |-> Ev.bases, dims |-> Ev.dims, m |-> Ev.lmin]
         /\ v' = Ev.v /\ Len(v') = Prod(Extents(Ev.L, Ev.B))
THier == /\ Is("hier") /\ v' = Hierarchize(v, c.L, c.B, c.bases, c.dims, c.m) /\ v' = Ev.v /\ UNCHANGED c
TDehier == /\ Is("dehier") /\ v' = Dehierarchize(v, c.L, c.B, c.bases, c.dims, c.m) /\ v' = Ev.v /\ UNCHANGED c
TSet == /\ Is("set") /\ v' = Ev.v /\ Len(v') = Len(v) /\ UNCHANGED c
TEnd == /\ Is("end") /\ UNCHANGED <<c, v>>
TNext == TCase \/ THier \/ TDehier \/ TSet \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
