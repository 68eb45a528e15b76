------------------------------ MODULE TrBroker ------------------------------
(* Recorded sessions of two systems with the real broker.                                  *)
EXTENDS Broker, TraceBase, TLC
VARIABLES c, at, ins, out, in, own, fin
\* at[s]: current operation; ins[s][o]: instruction; out[s][o]: arrays sent; in[s][o]: number received
tvars == <<l, c, at, ins, out, in, own, fin>>
None == <<>>
TInit == /\ l = 1 /\ c = [systems |-> 0] /\ at = <<0, 0>> /\ ins = <<None, None>> /\ out = <<None, None>>
         /\ in = <<None, None>> /\ own = <<None, None>> /\ fin = {}
Zero(x) == [i \in 1..Len(Ev.ops) |-> x]
TCase == /\ Is("case") /\ c' = Ev /\ at' = <<0, 0>> /\ ins' = <<Zero(""), Zero("")>> /\ out' = <<Zero(None), Zero(None)>>
         /\ in' = <<Zero(0), Zero(0)>> /\ own' = <<None, None>> /\ fin' = {}
TUp == Is("up") /\ Ev.s \in 1..c.systems /\ UNCHANGED <<c, at, ins, out, in, own, fin>>
S == Ev.s
O == at[S]
Opn == c.ops[O]
First == ins[S][O] = "send_first"
TAsk == /\ Is("ask") /\ O < Len(c.ops) /\ Ev.k = c.ops[O + 1].k /\ at' = [at EXCEPT ![S] = O + 1]
        /\ UNCHANGED <<c, ins, out, in, own, fin>>
TIns == /\ Is("ins") /\ O > 0 /\ ins[S][O] = ""
        /\ IF Opn.k = "file" THEN Ev.i = "write_ok"
           ELSE /\ Ev.i \in {"send_first", "recv_first"}
                /\ ins[Other(S)][O] # Ev.i                            \* exactly one sends first
                /\ Ev.i = "recv_first" => at[Other(S)] >= O           \* the other one is ready too
        /\ ins' = [ins EXCEPT ![S][O] = Ev.i] /\ UNCHANGED <<c, at, out, in, own, fin>>
TSent == /\ Is("sent") /\ ins[S][O] # "" /\ Len(out[S][O]) < Sends(Opn, First)
         /\ out' = [out EXCEPT ![S][O] = Append(@, Ev.d)] /\ UNCHANGED <<c, at, ins, in, own, fin>>
\* what arrives is what the other one sent, in order
Next1 == out[Other(S)][O][in[S][O] + 1]
CanGet == ins[S][O] # "" /\ in[S][O] < Gets(Opn, First) /\ in[S][O] < Len(out[Other(S)][O])
TGot == /\ Is("got") /\ CanGet /\ Ev.d = Next1 /\ in' = [in EXCEPT ![S][O] = @ + 1] /\ UNCHANGED <<c, at, ins, out, own, fin>>
TOwn == Is("own") /\ own' = [own EXCEPT ![S] = Ev.d] /\ UNCHANGED <<c, at, ins, out, in, fin>>
TSum == /\ Is("sum") /\ CanGet /\ Addable(own[S], Next1) /\ Ev.d = Sum(own[S], Next1)
        /\ in' = [in EXCEPT ![S][O] = @ + 1] /\ UNCHANGED <<c, at, ins, out, own, fin>>
TReady == /\ Is("ready") /\ Len(out[S][O]) = Sends(Opn, First) /\ in[S][O] = Gets(Opn, First) /\ UNCHANGED <<c, at, ins, out, in, own, fin>>
TFin == /\ Is("fin") /\ Ev.up /\ O = Len(c.ops) /\ fin' = fin \cup {S} /\ UNCHANGED <<c, at, ins, out, in, own>>
TEnd == /\ Is("end") /\ fin = 1..c.systems /\ Ev.status = 0
        /\ Ev.combis = CombisOf(c.ops) /\ Ev.bytes = TotalOf(c.ops, CombineBytes) /\ Ev.sizes = TotalOf(c.ops, SizeBytes)
        /\ Ev.per = (IF Ev.combis = 0 THEN 0 ELSE Ev.bytes \div Ev.combis)
        /\ UNCHANGED <<c, at, ins, out, in, own, fin>>
TNext == TCase \/ TUp \/ TAsk \/ TIns \/ TSent \/ TGot \/ TOwn \/ TSum \/ TReady \/ TFin \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
