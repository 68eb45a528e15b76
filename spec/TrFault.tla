------------------------------ MODULE TrFault ------------------------------
(* Recorded runs of the manager: grids are lost, coefficients change, the scheme returns.  *)
EXTENDS Fault, TraceBase
VARIABLES c, f, ph
tvars == <<l, c, f, ph>>
TInit == l = 1 /\ c = [g |-> <<>>] /\ f = <<>> /\ ph = "none"
TCase == Is("case") /\ c' = [g |-> Ev.g, co |-> Ev.co, lmin |-> Ev.lmin, m |-> MaxSum(SetOf(Ev.g))] /\ f' = <<>> /\ ph' = "new"
TRestored == Is("restored") /\ ph = "new" /\ Ev.co = c.co /\ ph' = "normal" /\ UNCHANGED <<c, f>>
TLost == Is("lost") /\ ph = "normal" /\ f' = Ev.f /\ ph' = "lost" /\ UNCHANGED c
TNew == /\ Is("new") /\ ph = "lost"
        /\ Len(Ev.co) = Len(c.g)
        /\ Accepts(c.g, c.co, c.lmin, c.m, f, Ev.co, Ev.red, Ev.rec, 9)
        /\ ph' = "new" /\ UNCHANGED <<c, f>>
TEnd == Is("end") /\ ph = "normal" /\ ph' = "none" /\ UNCHANGED <<c, f>>
TNext == TCase \/ TRestored \/ TLost \/ TNew \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
