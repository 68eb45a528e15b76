------------------------------- MODULE TrLoad -------------------------------
(* Recorded histories of load models and rescheduling decisions.                            *)
EXTENDS Load, TraceBase
VARIABLES c, h, file, base
\* h: durations added per level (not yet written away); file: content of the files per level; base: what was read
tvars == <<l, c, h, file, base>>
TInit == l = 1 /\ c = [kind |-> "none"] /\ h = <<>> /\ file = <<>> /\ base = <<>>
Empty(lv) == [i \in DOMAIN lv |-> <<>>]
TCase == /\ Is("case") /\ c' = [kind |-> Ev.kind, n |-> Ev.n, q |-> Ev.q, lv |-> Ev.lv]
         /\ h' = Empty(Ev.lv) /\ file' = Empty(Ev.lv) /\ base' = Empty(Ev.lv)
TAdd == /\ Is("add") /\ c.kind \in {"last", "file"}
        /\ LET i == Ev.i
               s == Append(h[i], Ev.d)
           IN IF c.kind = "last" THEN h' = [h EXCEPT ![i] = LastOf(s, c.n)] /\ UNCHANGED file
              ELSE h' = [h EXCEPT ![i] = Spill(s)[2]] /\ file' = [file EXCEPT ![i] = @ \o Spill(s)[1]]
        /\ UNCHANGED <<c, base>>
Usec(i) == IF h[i] = <<>> THEN 0 ELSE MeanOf(h[i], c.q)
TUsec == Is("usec") /\ c.kind = "last" /\ Ev.r = Usec(Ev.i) /\ UNCHANGED <<c, h, file, base>>
TEval == /\ Is("eval") /\ c.kind = "last"
         /\ IF h[Ev.i] = <<>> THEN Ev.raw = LinearLoad(c.lv[Ev.i]) ELSE Ev.r = Usec(Ev.i)
         /\ UNCHANGED <<c, h, file, base>>
\* estimate of the model that remembers its durations in files, in thousandths
TMean == /\ Is("mean") /\ c.kind = "file"
         /\ LET i == Ev.i IN
            IF h[i] # <<>> THEN Abs(Ev.r * Len(h[i]) - SumSeq(h[i]) * 1000) <= Len(h[i])
            ELSE Ev.r = 1000 * (IF base[i] # <<>> THEN MeanOf(base[i], 1) ELSE LinearLoad(c.lv[i]))
         /\ UNCHANGED <<c, h, file, base>>
TOpen == Is("open") /\ c.kind = "file" /\ base' = file /\ UNCHANGED <<c, h, file>>
TClose == /\ Is("close") /\ c.kind = "file"
          /\ file' = [i \in DOMAIN h |-> file[i] \o h[i]] /\ Ev.f = file'
          /\ h' = Empty(c.lv) /\ base' = Empty(c.lv) /\ UNCHANGED c
TPlan == /\ Is("plan") /\ c.kind = "last"
         /\ LET e == Ev
                dur == TLCEval([t \in DOMAIN e.place |-> IF e.dur[t] = -1 THEN 0 ELSE e.dur[t]])
                prog == TLCEval([t \in DOMAIN e.place |-> Usec(t)])
                T == {e.mv[i][1] : i \in DOMAIN e.mv}
                new == TLCEval([t \in DOMAIN e.place |-> IF t \in T THEN e.mv[CHOOSE i \in DOMAIN e.mv : e.mv[i][1] = t][2] ELSE e.place[t]])
            IN /\ T \subseteq DOMAIN e.place /\ Cardinality(T) = Len(e.mv)
               /\ \A i \in DOMAIN e.mv : e.mv[i][2] \in Used(e.place)
               /\ <<new, T>> \in Plans(e.place, dur, prog, e.imb, e.iters)
               /\ prog = dur => MaxLoad(new, dur) <= MaxLoad(e.place, dur)
         /\ UNCHANGED <<c, h, file, base>>
TEnd == Is("end") /\ c' = [kind |-> "none"] /\ UNCHANGED <<h, file, base>>
TNext == TCase \/ TAdd \/ TUsec \/ TEval \/ TMean \/ TOpen \/ TClose \/ TPlan \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
