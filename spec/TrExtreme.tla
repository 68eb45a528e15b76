------------------------------ MODULE TrExtreme -----------------------------
(* Recorded reports of extreme coefficients.                                                *)
EXTENDS Extreme, TraceBase
\* V: values of the current step by grid of a task and task; acc: what the next report contains, by grid of a task
VARIABLES c, m, names, present, V, acc, ask
tvars == <<l, c, m, names, present, V, acc, ask>>
TInit == l = 1 /\ c = [g |-> <<>>] /\ m = [N |-> 0] /\ names = <<>> /\ present = {} /\ V = <<>> /\ acc = <<>> /\ ask = <<>>
Fresh == [n \in 1..c.nsp |-> [k \in DOMAIN c.g |-> <<>>]]
TCase == /\ Is("case") /\ c' = Ev /\ m' = Prepare(Ev) /\ names' = SubspaceOfName(Ev) /\ present' = Present(Ev)
         /\ V' = [n \in 1..Ev.nsp |-> [k \in DOMAIN Ev.g |-> <<>>]] /\ acc' = [n \in 1..Ev.nsp |-> <<>>] /\ ask' = <<>>
TRun == /\ Is("run") /\ V[Ev.k][Ev.t] = <<>> /\ V' = [V EXCEPT ![Ev.k][Ev.t] = Ev.v]
        /\ UNCHANGED <<c, m, names, present, acc, ask>>
\* with chunks, the values are collected during the combination if asked for; else the current ones are reported
TCombine == /\ Is("combine") /\ \A n \in DOMAIN V : \A k \in DOMAIN V[n] : V[n][k] # <<>>
            /\ acc' = [n \in DOMAIN V |->
                         IF c.variant = "chunk" /\ ~Ev.col THEN acc[n]
                         ELSE LET x == Extremes(c, m, names, present, V[n])
                              IN IF c.variant = "chunk" /\ acc[n] # <<>> THEN Merge(acc[n], x) ELSE x]
            /\ V' = Fresh /\ UNCHANGED <<c, m, names, present, ask>>
\* every report is of what happened since the one before
TAsk == /\ Is("ask") /\ ask' = acc /\ acc' = [n \in DOMAIN acc |-> IF c.variant = "chunk" THEN <<>> ELSE acc[n]]
        /\ UNCHANGED <<c, m, names, present, V>>
TReport == /\ Is("report") /\ Ev.there /\ LET x == Lines(ask[Ev.k]) IN {Ev.l[i] : i \in DOMAIN Ev.l} = x /\ Len(Ev.l) = Cardinality(x)
           /\ UNCHANGED <<c, m, names, present, V, acc, ask>>
TEnd == Is("end") /\ UNCHANGED <<c, m, names, present, V, acc, ask>>
TNext == TCase \/ TRun \/ TCombine \/ TAsk \/ TReport \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
