------------------------------- MODULE TrNet --------------------------------
(* Recorded transfers. The stream ends early if the sender was cut off after c.cut bytes.  *)
EXTENDS Net, TraceBase
VARIABLES c, q, at, i, pos, dead
\* q: messages, at: bytes sent so far, i/rest: next message to be received, pos: bytes received
tvars == <<l, c, q, at, i, pos, dead>>
Avail == IF c.cut >= 0 THEN c.cut ELSE c.total
TInit == l = 1 /\ c = [cut |-> -1, total |-> 0] /\ q = <<>> /\ at = 0 /\ i = 1 /\ pos = 0 /\ dead = FALSE
TCase == Is("case") /\ c' = Ev /\ q' = <<>> /\ at' = 0 /\ i' = 1 /\ pos' = 0 /\ dead' = FALSE
\* a sender that was not cut off sends everything
TSend == /\ Is("send")
         /\ LET b == BytesOf(Ev)
            IN /\ Ev.ok = (at + b <= Avail)
               /\ Ev.ok => Ev.w = b
               /\ at' = at + Ev.w /\ at' <= Avail
         /\ q' = Append(q, Ev) /\ UNCHANGED <<c, i, pos, dead>>
TForward == /\ Is("forward") /\ Ev.got = Ev.w /\ Ev.got = Avail /\ Ev.ok = (Avail = Ev.n) /\ UNCHANGED <<c, q, at, i, pos, dead>>
TRecv == /\ Is("recv") /\ ~dead /\ i <= Len(q)
         /\ LET m == q[i]
                need == IF Ev.k = "raw" THEN Ev.n ELSE BytesOf(m)
            IN /\ Fits(m, Ev.k)
               /\ IF pos + need <= Avail
                  THEN /\ Ev.ok /\ Ev.got = need /\ Ev.v = Received(m, Ev.k, Ev.n, Ev.a) /\ pos' = pos + need /\ dead' = FALSE
                       /\ IF Ev.k = "raw" /\ Ev.n < Len(m.v) THEN q' = [q EXCEPT ![i] = Rest(m, Ev.n)] /\ i' = i ELSE i' = i + 1 /\ q' = q
                  ELSE ~Ev.ok /\ dead' = TRUE /\ UNCHANGED <<q, i, pos>>
         /\ UNCHANGED <<c, at>>
TEnd == Is("end") /\ ~Ev.more /\ (dead \/ (i = Len(q) + 1 /\ pos = c.total)) /\ UNCHANGED <<c, q, at, i, pos, dead>>
TNext == TCase \/ TSend \/ TForward \/ TRecv \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
