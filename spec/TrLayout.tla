------------------------------ MODULE TrLayout ------------------------------
(* Recorded (re-)initialisations of MPISystem: one report per process after each.          *)
EXTENDS Layout, TraceBase
VARIABLES c, left
tvars == <<l, c, left>>
TInit == l = 1 /\ c = [ng |-> 0] /\ left = {}
TCase == Is("case") /\ left = {} /\ c' = [ng |-> 0] /\ UNCHANGED left
\* all processes of a world initialise; parts > 0: output group re-created with that many file parts
TIni == /\ Is("init") /\ left = {}
        /\ c' = [ng |-> Ev.ng, np |-> Ev.np, mgr |-> Ev.mgr, parts |-> 1]
        /\ left' = Procs(Ev.ng, Ev.np, Ev.mgr)
TOut == /\ Is("output") /\ left = {} /\ c' = [c EXCEPT !.parts = Ev.parts] /\ left' = Procs(c.ng, c.np, c.mgr)
TRep == /\ Is("proc") /\ Ev.w \in left
        /\ LET e == Ev
               w == e.w
               isM == c.mgr /\ w = ManagerOf(c.ng, c.np)
               out == InOutput(w, c.ng, c.np)
           IN /\ e.ng = c.ng /\ e.np = c.np /\ e.wsize = Cardinality(Procs(c.ng, c.np, c.mgr))
              /\ e.isman = isM
              /\ e.group = (IF isM THEN -1 ELSE GroupOf(w, c.np))
              /\ e.manworld = (IF c.mgr THEN ManagerOf(c.ng, c.np) ELSE -1)
              /\ e.local = (IF isM THEN <<>> ELSE LocalComm(w, c.np))
              /\ e.lrank = (IF isM THEN -1 ELSE PosOf(w, c.np))
              /\ e.ismaster = (~isM /\ PosOf(w, c.np) = 0)
              /\ e.reduce = (IF isM THEN <<>> ELSE ReduceComm(w, c.ng, c.np))
              /\ e.rrank = (IF isM THEN -1 ELSE GroupOf(w, c.np))
              /\ e.global = (IF isM \/ PosOf(w, c.np) = 0 THEN GlobalComm(c.ng, c.np, c.mgr) ELSE <<>>)
              /\ e.grank = (IF isM THEN c.ng ELSE IF PosOf(w, c.np) = 0 THEN GroupOf(w, c.np) ELSE -1)
              /\ (isM \/ PosOf(w, c.np) = 0) => e.man = (IF c.mgr THEN c.ng ELSE -1)
              /\ e.third = (IF ~c.mgr THEN <<>> ELSE IF isM THEN [g \in 1..c.ng |-> ThirdComm(g - 1, c.ng, c.np)]
                            ELSE <<ThirdComm(GroupOf(w, c.np), c.ng, c.np)>>)
              /\ c.mgr => e.isthird = isM
              /\ e.outg = (IF out THEN OutputGroup(c.ng, c.np) ELSE <<>>)
              /\ ~isM => e.outin = PosOf(w, c.np) % c.ng
              /\ e.outc = (IF out THEN OutputComm(w, c.ng, c.np, c.parts) ELSE <<>>)
              /\ out => e.orank = PosOf(w, c.np) /\ e.part = FilePart(w, c.np, c.parts)
              /\ left' = left \ {w}
        /\ UNCHANGED c
TNext == TCase \/ TIni \/ TOut \/ TRep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
