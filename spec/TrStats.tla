------------------------------- MODULE TrStats -------------------------------
(* Recorded sessions of timing records.  Times are in microseconds of the recording process' *)
(* clock; those in the files are relative to the initialisation, which is known to lie       *)
(* between two readings of the clock.                                                        *)
EXTENDS Stats, TraceBase
VARIABLES c, rk, es, done, attr, no
tvars == <<l, c, rk, es, done, attr, no>>
TInit == l = 1 /\ c = [n |-> 0] /\ rk = <<>> /\ es = <<>> /\ done = <<>> /\ attr = <<>> /\ no = <<>>
Nothing == [k |-> "", c |-> -1, a |-> 0, b |-> 0, m |-> 0]
TCase == /\ Is("case") /\ c' = Ev /\ rk' = [r \in 1..Ev.n |-> Nothing]
         /\ es' = [r \in 1..Ev.n |-> <<>>] /\ done' = [r \in 1..Ev.n |-> {}] /\ attr' = [r \in 1..Ev.n |-> {}] /\ no' = [r \in 1..Ev.n |-> 0]
TInitialize == /\ Is("init")
               /\ rk' = [rk EXCEPT ![Ev.r] = [k |-> Ev.k, c |-> Ev.c, a |-> Ev.a, b |-> Ev.b, m |-> Ev.m]]
               /\ es' = [es EXCEPT ![Ev.r] = <<>>] /\ done' = [done EXCEPT ![Ev.r] = {}] /\ attr' = [attr EXCEPT ![Ev.r] = {}]
               /\ no' = [no EXCEPT ![Ev.r] = 0] /\ UNCHANGED c
\* the start is only known when the event is stopped; until then, the readings before and after are kept
TStart == /\ Is("start") /\ ~Running(es[Ev.r], Ev.n)
          /\ es' = [es EXCEPT ![Ev.r] = Started(@, Ev.n, <<Ev.a, Ev.b>>)] /\ UNCHANGED <<c, rk, done, attr, no>>
TStop == /\ Is("stop") /\ Running(es[Ev.r], Ev.n)
         /\ LET i == LastOf(es[Ev.r], Ev.n, Len(es[Ev.r]))
                x == es[Ev.r][i]
            IN /\ x.s[1] <= Ev.s /\ Ev.s <= x.s[2] /\ Ev.a <= Ev.t /\ Ev.t <= Ev.b
               /\ Ev.d \in {Ev.t - Ev.s - 1, Ev.t - Ev.s}
               /\ es' = [es EXCEPT ![Ev.r][i] = [n |-> x.n, s |-> Ev.s, t |-> Ev.t]]
         /\ UNCHANGED <<c, rk, done, attr, no>>
\* the duration of the last event of a name, in milliseconds
TLast == /\ Is("last")
         /\ LET x == es[Ev.r][LastOf(es[Ev.r], Ev.n, Len(es[Ev.r]))]
            IN Ev.ms \in {(x.t - x.s) \div 1000, (IF x.t > x.s THEN x.t - x.s - 1 ELSE 0) \div 1000} /\ Ev.g = Ev.ms
         /\ UNCHANGED <<c, rk, es, done, attr, no>>
TAttr == /\ Is("attr") /\ attr' = [attr EXCEPT ![Ev.r] = {x \in @ : x[1] # Ev.n} \union {<<Ev.n, Ev.v>>}]
         /\ UNCHANGED <<c, rk, es, done, no>>
\* what process r contributes to a file that reports its events S
Fits(r, x, S) ==
  /\ {x.attr[i] : i \in DOMAIN x.attr} = attr[r] /\ Len(x.attr) = Cardinality(attr[r])
  /\ Len(x.ev) = Cardinality(NamesOf(es[r], S)) /\ {x.ev[i][1] : i \in DOMAIN x.ev} = NamesOf(es[r], S)
  /\ \A i \in DOMAIN x.ev :
       LET o == OfName(es[r], S, x.ev[i][1])
       IN /\ Len(x.ev[i][2]) = Len(o)
          /\ \A j \in DOMAIN o :
               LET w == x.ev[i][2][j]
                   e == es[r][o[j]]
               IN /\ Len(w) = 2 /\ w[1] >= e.s - rk[r].b - 1 /\ w[1] <= e.s - rk[r].a + 1
                  /\ w[2] - w[1] - (e.t - e.s) \in {-1, 0, 1}
Members(k) == {r \in 1..c.n : rk[r].c = k}
\* the processes are in the order of the communicator
InOrder(f, k) == /\ Len(f) = Cardinality(Members(k)) /\ \A i \in DOMAIN f : f[i].rank = "rank" \o ToString(i - 1)
Of(f, r) == f[CHOOSE i \in DOMAIN f : f[i].rank = rk[r].k]
TPartial == /\ Is("partial") /\ Ev.there /\ Ev.ok /\ InOrder(Ev.f, Ev.c)
            /\ \A r \in Members(Ev.c) : Fits(r, Of(Ev.f, r), Ended(es[r], done[r])) /\ Ev.no = ToString(no[r]) \o "_"
            /\ done' = [r \in 1..c.n |-> IF rk[r].c = Ev.c THEN done[r] \union Ended(es[r], done[r]) ELSE done[r]]
            /\ no' = [r \in 1..c.n |-> IF rk[r].c = Ev.c THEN no[r] + 1 ELSE no[r]]
            /\ UNCHANGED <<c, rk, es, attr>>
TWrite == /\ Is("write") /\ Ev.there /\ Ev.ok /\ InOrder(Ev.f, Ev.c)
          /\ \A r \in Members(Ev.c) : Ended(es[r], {}) = DOMAIN es[r] /\ Fits(r, Of(Ev.f, r), DOMAIN es[r])
          /\ UNCHANGED <<c, rk, es, done, attr, no>>
TEnd == Is("end") /\ UNCHANGED <<c, rk, es, done, attr, no>>
TNext == TCase \/ TInitialize \/ TStart \/ TStop \/ TLast \/ TAttr \/ TPartial \/ TWrite \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
