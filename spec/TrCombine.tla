------------------------------ MODULE TrCombine -----------------------------
(* Recorded runs and combinations of all component grids of all groups.                   *)
EXTENDS Combine, TraceBase
VARIABLES c, m, v
tvars == <<l, c, m, v>>
TInit == l = 1 /\ c = [g |-> <<>>] /\ m = [N |-> 0] /\ v = <<>>
TCase == /\ Is("case") /\ c' = Ev /\ m' = (IF Ev.id < 100000 THEN Prepare(Ev) ELSE TLCEval(TruncSet(Ev.lmin, SparseTop(Ev)))) /\ v' = <<>>
\* a solver step may change the values in any way
TRun == /\ Is("run") /\ v' = Ev.v /\ Len(v') = c.nsp /\ (\A s \in DOMAIN v' : Len(v'[s]) = Len(c.g))
        /\ \A s \in DOMAIN v', k \in DOMAIN c.g : Len(v'[s][k]) = Prod(Extents(c.g[k], c.B))
        /\ UNCHANGED <<c, m>>
TCombine == /\ Is("combine") \* every grid of a task is combined with the like grids of the other tasks
            /\ v' = [s \in DOMAIN v |-> CombineAll(c, m, v[s])] /\ Ev.v = v' /\ Ev.n = Ev.s /\ UNCHANGED <<c, m>>
\* large grids, looked at in some points
TBig == /\ Is("big") /\ Len(Ev.u) = Len(c.g) /\ Len(Ev.v) = Len(c.g)
        /\ \A j \in DOMAIN Ev.p : [k \in DOMAIN c.g |-> Ev.v[k][j]] = CombinePoint(c, m, Ev.p[j], [k \in DOMAIN c.g |-> Ev.u[k][j]])
        /\ UNCHANGED <<c, m, v>>
TEnd == Is("end") /\ UNCHANGED <<c, m, v>>
TNext == TCase \/ TRun \/ TCombine \/ TBig \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
