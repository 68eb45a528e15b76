------------------------------ MODULE TrCouple ------------------------------
(* Recorded runs of systems coupled through files or the broker.                                     *)
EXTENDS Couple, TraceBase
\* R: registered sizes, IO: group that writes, by system and position; V: values before the combination by step;
\* X: values after it by step; F: state of the files; done: steps done per grid
VARIABLES c, m, R, IO, V, X, F, done
tvars == <<l, c, m, R, IO, V, X, F, done>>
None == <<>>
TInit == l = 1 /\ c = [g |-> <<>>] /\ m = [N |-> 0] /\ R = None /\ IO = None /\ V = None /\ X = None /\ F = <<>> /\ done = <<>>
TCase == /\ Is("case") /\ c' = Ev /\ m' = (IF Ev.id < 100000 THEN Prepare(Ev) ELSE TLCEval(TruncSet(Ev.lmin, SparseTop(Ev))))
         /\ R' = [y \in 1..Ev.ns |-> [g \in 1..Ev.gs[y] |-> [p \in 0..Ev.np - 1 |-> None]]]
         /\ IO' = [y \in 1..Ev.ns |-> [p \in 0..Ev.np - 1 |-> 0]]
         /\ V' = [s \in 1..(IF Ev.steps = 0 THEN 1 ELSE Ev.steps) |-> [k \in DOMAIN Ev.g |-> None]]
         /\ X' = [s \in 1..Ev.steps |-> None]
         /\ F' = <<>> /\ done' = [k \in DOMAIN Ev.g |-> 0]
\* exactly one group per position writes
TReg == /\ Is("reg")
        /\ R[Ev.y][Ev.g][Ev.p] = None
        /\ R' = [R EXCEPT ![Ev.y][Ev.g][Ev.p] = Ev.n]
        /\ IF Ev.io THEN IO[Ev.y][Ev.p] = 0 /\ IO' = [IO EXCEPT ![Ev.y][Ev.p] = Ev.g] ELSE IO' = IO
        /\ UNCHANGED <<c, m, V, X, F, done>>
TSizes == /\ Is("sizes")
          /\ IO[Ev.y][Ev.p] # 0
          /\ Ev.io = (IO[Ev.y][Ev.p] = Ev.g)
          /\ IF c.mode = "tcp"
             THEN /\ Ev.n = TcpSizes(c, R, Ev.y, Ev.p)
                  /\ IF c.extra THEN LET x == TcpExtra(c, R, Ev.p) IN Ev.io /\ Ev.x = x /\ Ev.raw = SumTo(x, Len(x))
                     ELSE Ev.raw = SumTo(Ev.n, Len(Ev.n))
             ELSE /\ Ev.n = SizesAfter(c, R, Ev.y, Ev.p, IO[Ev.y][Ev.p])[Ev.g]
                  /\ IF Ev.io THEN LET x == ExtraSizes(c, R, Ev.p) IN Ev.x = x /\ Ev.raw = SumTo(x, Len(x)) /\ Ev.red = Len(x)
                     ELSE Ev.red = 0
          /\ UNCHANGED <<c, m, R, IO, V, X, F, done>>
\* the manager reports how much is exchanged
TTotal == /\ Is("total") /\ \A p \in 0..c.np - 1, y \in 1..2, g \in 1..c.gs[1] : R[y][g][p] # None
          /\ Ev.n = SumTo([q \in 1..c.np |-> LET x == IF c.extra THEN TcpExtra(c, R, q - 1) ELSE TcpSizes(c, R, Ev.y, q - 1) IN SumTo(x, Len(x))], c.np)
          /\ UNCHANGED <<c, m, R, IO, V, X, F, done>>
\* points at which both systems evaluate: the same for both, and the result is the sum
TMc == /\ Is("mc") /\ LET key == "mc" \o Num(Ev.s)
                      got == [x |-> Ev.x, v |-> Ev.v, own |-> Ev.own, tot |-> Ev.tot]
                  IN IF key \in DOMAIN F
                     THEN /\ F[key].x = got.x /\ F[key].v = got.v
                          /\ \A i \in DOMAIN got.own : LET d == got.own[i] + F[key].own[i] - got.tot[i] IN d >= -2 /\ d <= 2
                          /\ F' = F
                     ELSE F' = [k \in DOMAIN F \cup {key} |-> IF k = key THEN got ELSE F[k]]
       /\ UNCHANGED <<c, m, R, IO, V, X, done>>
\* a solver step may change the values in any way
TRun == /\ Is("run") /\ c.sys[Ev.t] = Ev.y /\ Ev.s = done[Ev.t] + 1 /\ V[Ev.s][Ev.t] = None
        /\ Len(Ev.v) = IF c.id < 100000 THEN Prod(Extents(c.g[Ev.t], c.B)) ELSE Len(c.pts)
        /\ V' = [V EXCEPT ![Ev.s][Ev.t] = Ev.v]
        /\ UNCHANGED <<c, m, R, IO, X, F, done>>
TStep == /\ Is("step") /\ UNCHANGED <<c, m, R, IO, V, X, F, done>>
TComb == /\ Is("comb") /\ c.sys[Ev.t] = Ev.y /\ Ev.s = done[Ev.t] + 1 /\ done' = [done EXCEPT ![Ev.t] = Ev.s]
         /\ X' = [X EXCEPT ![Ev.s] = IF @ # None THEN @ ELSE IF c.id < 100000 THEN CoupledStep(c, m, V[Ev.s]) ELSE CoupledPoints(c, m, c.pts, V[Ev.s])]
         /\ Ev.v = X'[Ev.s][Ev.t]
         /\ UNCHANGED <<c, m, R, IO, V, F>>
TStepped == /\ Is("stepped") /\ Ev.n = Ev.s /\ UNCHANGED <<c, m, R, IO, V, X, F, done>>
\* ---- files: w processes writing, r processes reading, full: completely written
Closed == [w |-> {}, r |-> {}, n |-> 0]
Known(f) == f \in DOMAIN F
Set(f, st) == [x \in DOMAIN F \cup {f} |-> IF x = f THEN st ELSE F[x]]
St(f) == IF Known(f) THEN F[f] ELSE Closed
Same == UNCHANGED <<c, m, R, IO, V, X, done>>
TWOpen == /\ Is("wopen") /\ St(Ev.f).r = {}
          /\ F' = Set(Ev.f, [St(Ev.f) EXCEPT !.w = @ \cup {Ev.q}, !.n = IF St(Ev.f).w = {} THEN 0 ELSE @]) /\ Same
TWClose == /\ Is("wclose") /\ Ev.q \in St(Ev.f).w
           /\ F' = Set(Ev.f, [St(Ev.f) EXCEPT !.w = @ \ {Ev.q}, !.n = @ + 1]) /\ Same
\* nobody reads a file before everybody has written his part
TROpen == /\ Is("ropen") /\ Known(Ev.f) /\ F[Ev.f].w = {} /\ F[Ev.f].n > 0
          /\ F' = Set(Ev.f, [St(Ev.f) EXCEPT !.r = @ \cup {Ev.q}]) /\ Same
TRClose == /\ Is("rclose") /\ Ev.q \in St(Ev.f).r
           /\ F' = Set(Ev.f, [St(Ev.f) EXCEPT !.r = @ \ {Ev.q}]) /\ Same
TCarry == /\ Is("carry") /\ Known(Ev.f) /\ F[Ev.f].w = {} /\ F[Ev.f].n > 0
          /\ F' = Set(Ev.to, [Closed EXCEPT !.n = 1]) /\ Same
TDrop == /\ Is("drop") /\ Known(Ev.f) /\ F[Ev.f].w = {}
         /\ F' = [x \in DOMAIN F \ {Ev.f} |-> F[x]] /\ Same
TFiles == /\ Is("files") /\ {Ev.l[i] : i \in DOMAIN Ev.l} = Remaining(c)
          /\ \A f \in DOMAIN F : F[f].w = {} /\ F[f].r = {}
          /\ \A k \in DOMAIN c.g : done[k] = c.steps
          /\ UNCHANGED F /\ Same
TEnd == Is("end") /\ (c.mode = "tcp" => Ev.status = 0 /\ Ev.combis = c.steps /\ \A k \in DOMAIN c.g : done[k] = c.steps) /\ UNCHANGED <<c, m, R, IO, V, X, F, done>>
TNext == TCase \/ TReg \/ TSizes \/ TTotal \/ TMc \/ TRun \/ TStep \/ TComb \/ TStepped \/ TWOpen \/ TWClose \/ TROpen \/ TRClose \/ TCarry \/ TDrop \/ TFiles \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
