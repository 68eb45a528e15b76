----------------------------- MODULE TrTransfer -----------------------------
(* Recorded transfers of tasks, parameters, durations, files.                               *)
EXTENDS Transfer, TraceBase
VARIABLES np, ch
tvars == <<l, np, ch>>
TInit == l = 1 /\ np = 0 /\ ch = NoChan
TCase == Is("case") /\ np' = Ev.np /\ ch' = NoChan
TSend == Is("send") /\ ch' = Put(ch, <<Ev.s, Ev.d, Ev.k>>, Ev.x) /\ UNCHANGED np
TRecv == /\ Is("recv")
         /\ LET k == <<Ev.s, Ev.d, Ev.k>> IN In(ch, k) # <<>> /\ Head(ch[k]) = Ev.x /\ ch' = Take(ch, k)
         /\ UNCHANGED np
TBcast == Is("bcast") /\ Len(Ev.r) = np /\ SameEverywhere(Ev.x, Ev.r) /\ UNCHANGED <<np, ch>>
TManaged == Is("managed") /\ Len(Ev.w) = np - 1 /\ Delivered(Ev.n, Ev.x, Ev.t, Ev.own, Ev.w) /\ UNCHANGED <<np, ch>>
TEnd == Is("end") /\ Idle(ch) /\ UNCHANGED <<np, ch>>
TNext == TCase \/ TSend \/ TRecv \/ TBcast \/ TManaged \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
