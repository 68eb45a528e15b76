----------------------------- MODULE TrManaged ------------------------------
(* Recorded managed computations: one manager, process groups with several processes each. *)
(* The events of all processes are in one order (a shared counter). Groups are 1..ng,      *)
(* processes of a group 0..np-1 (0: the group's master), tasks 1..number of grids.         *)
EXTENDS Combine, Eval, TraceBase
VARIABLES c, m,
          cur,   \* operation the manager is in ("" between operations)
          own,   \* group of every task (0: none yet)
          at,    \* processes holding the task: set of <<group, process>>
          run,   \* per task: processes which began / ended the current step
          end,
          step,  \* solver steps completed per task
          goal,  \* solver steps the manager asked for
          v,     \* grid values of every task after the last operation on it
          exp,   \* [n |-> number of the combination, v |-> values all grids have after it]
          asked, \* open diagnostics: set of tasks
          bye    \* processes that left the signal loop
tvars == <<l, c, m, cur, own, at, run, end, step, goal, v, exp, asked, bye>>
Tasks == DOMAIN c.g
Procs == 0..(c.np - 1)
TInit == /\ l = 1 /\ c = [g |-> <<>>] /\ m = [N |-> 0] /\ cur = "" /\ own = <<>> /\ at = <<>> /\ run = <<>> /\ end = <<>>
         /\ step = <<>> /\ goal = 0 /\ v = <<>> /\ exp = [n |-> 0, v |-> <<>>] /\ asked = {} /\ bye = {}
TCase == /\ Is("case") /\ c' = Ev /\ m' = Prepare(Ev) /\ cur' = ""
         /\ LET T == DOMAIN Ev.g
            IN /\ own' = [t \in T |-> 0] /\ at' = [t \in T |-> {}] /\ run' = [t \in T |-> {}] /\ end' = [t \in T |-> {}]
               /\ step' = [t \in T |-> 0] /\ v' = [t \in T |-> <<>>]
         /\ goal' = 0 /\ exp' = [n |-> 0, v |-> <<>>] /\ asked' = {} /\ bye' = {}
\* ------------------------------------------------------------ manager
\* the operations that hand a step to the solvers
StepOps == {"runfirst", "runnext"}
TOp == /\ Is("op") /\ cur = "" /\ cur' = Ev.k
       /\ goal' = IF Ev.k \in StepOps THEN goal + 1 ELSE goal
       /\ asked' = IF Ev.k = "diagn" THEN asked \cup {Ev.t} ELSE asked
       /\ UNCHANGED <<c, m, own, at, run, end, step, v, exp, bye>>
\* all groups have finished the step when the manager's operation returns
StepDone == \A t \in Tasks : <<own[t], 0, goal>> \in end[t]
\* the manager's bookkeeping: every task in the list of exactly its group
Listed(o) == /\ Len(o) = c.ng
             /\ \A g \in 1..c.ng : {o[g][i] : i \in DOMAIN o[g]} = {t \in Tasks : own[t] = g}
             /\ \A g \in 1..c.ng : Len(o[g]) = Cardinality({t \in Tasks : own[t] = g})
ListedUpTo(o, w) == /\ Len(o) = c.ng
                    /\ \A g \in 1..c.ng : {o[g][i] : i \in DOMAIN o[g]} = {t \in Tasks : w[t] = g} /\ Len(o[g]) = Cardinality({t \in Tasks : w[t] = g})
Norms(r, p) == /\ Len(r) = Len(c.g)
            /\ \A i \in DOMAIN r : r[i][1] = i /\ r[i][2] = (IF p = 0 THEN MaxNorm(v[i]) ELSE OneNorm(v[i], c.g[i], c.B))
Sum1(f) == SumSeq([k \in DOMAIN c.g |-> f[k]])
InterpOk(q, res) ==
  \A p \in DOMAIN q :
    res[p] = SumSeq([k \in DOMAIN c.g |-> c.co[k] * Interpolate(v[k], c.g[k], c.B, c.lmax, q[p]) * Pow2(SumSeq(Sub(c.g[k], c.lmin)))])
Moved(mv) == [t \in Tasks |-> IF \E i \in DOMAIN mv : mv[i][1] = t THEN (LET i == CHOOSE i \in DOMAIN mv : mv[i][1] = t IN mv[i][3]) ELSE own[t]]
TRet ==
  /\ Is("ret") /\ cur = Ev.k /\ cur' = ""
  /\ CASE Ev.k \in StepOps -> StepDone /\ Listed(Ev.own)
       [] Ev.k \in {"combine", "update"} -> Listed(Ev.own)
       [] Ev.k = "norms" -> Norms(Ev.res, Ev.pn)
       [] Ev.k = "norm" -> Ev.res = SumSeq([k \in DOMAIN c.g |-> c.co[k] * MaxNorm(v[k])])
       [] Ev.k = "interp" -> InterpOk(Ev.q, Ev.res)
       [] Ev.k = "diagn" -> Ev.got = Ev.t
       \* all moves happened: the task is where it was to go, level, coefficient and state are the same
       [] Ev.k = "move" -> /\ Listed(Ev.own) /\ Ev.n = Len(c.g)
                           /\ \A i \in DOMAIN Ev.mv : own[Ev.mv[i][1]] = Ev.mv[i][3]
                           /\ \A t \in Tasks : Ev.tasks[t][1] = c.g[t] /\ Ev.tasks[t][2] = c.co[t]
                           /\ \A i \in DOMAIN Ev.mv : Ev.tasks[Ev.mv[i][1]][3] = step[Ev.mv[i][1]]
       [] OTHER -> TRUE
  /\ UNCHANGED <<c, m, own, at, run, end, step, goal, v, exp, asked, bye>>
\* ------------------------------------------------------------ groups
\* a task arrives at a process: while it is given out, or when it moves
TTask ==
  /\ Is("init") /\ Ev.t \in Tasks /\ Ev.p \in 1..c.ng /\ Ev.r \in Procs
  /\ Ev.lev = c.g[Ev.t] /\ Ev.co = c.co[Ev.t] /\ Ev.s = step[Ev.t]
  /\ CASE cur = "runfirst" ->
            /\ own[Ev.t] \in {0, Ev.p} /\ <<Ev.p, Ev.r>> \notin at[Ev.t]
            /\ own' = [own EXCEPT ![Ev.t] = Ev.p] /\ at' = [at EXCEPT ![Ev.t] = @ \cup {<<Ev.p, Ev.r>>}]
       \* the first process of the new group takes the task over
       [] cur # "runfirst" ->
            /\ cur = "move" \/ own[Ev.t] = Ev.p  \* a slow process of the new group may come after the manager's return
            /\ IF own[Ev.t] = Ev.p /\ <<Ev.p, Ev.r>> \notin at[Ev.t]
               THEN own' = own /\ at' = [at EXCEPT ![Ev.t] = @ \cup {<<Ev.p, Ev.r>>}]
               ELSE /\ at[Ev.t] = {<<own[Ev.t], q>> : q \in Procs} /\ cur = "move"
                    /\ own' = [own EXCEPT ![Ev.t] = Ev.p] /\ at' = [at EXCEPT ![Ev.t] = {<<Ev.p, Ev.r>>}]
  /\ UNCHANGED <<c, m, cur, run, end, step, goal, v, exp, asked, bye>>
\* every process of the owner begins and ends every step once; masters while the manager waits for them
TBegin ==
  /\ Is("begin") /\ Ev.t \in Tasks /\ own[Ev.t] = Ev.p /\ <<Ev.p, Ev.r>> \in at[Ev.t] /\ Ev.s = goal /\ cur \in StepOps
  /\ \A x \in run[Ev.t] : ~(x[3] = goal /\ (x[2] = Ev.r \/ x[1] # Ev.p))
  /\ run' = [run EXCEPT ![Ev.t] = @ \cup {<<Ev.p, Ev.r, Ev.s>>}]
  /\ UNCHANGED <<c, m, cur, own, at, end, step, goal, v, exp, asked, bye>>
TDone ==
  /\ Is("done") /\ <<Ev.p, Ev.r, Ev.s>> \in run[Ev.t] /\ <<Ev.p, Ev.r, Ev.s>> \notin end[Ev.t]
  /\ \A q \in Procs : <<Ev.p, q, Ev.s>> \in run[Ev.t]
  /\ (Ev.r = 0 => cur \in StepOps /\ Ev.s = goal)
  /\ end' = [end EXCEPT ![Ev.t] = @ \cup {<<Ev.p, Ev.r, Ev.s>>}]
  /\ step' = IF Ev.r = 0 THEN [step EXCEPT ![Ev.t] = goal] ELSE step
  /\ UNCHANGED <<c, m, cur, own, at, run, goal, v, exp, asked, bye>>
\* last access of a group's master to its grids within an operation: the manager is still in it
TAcc == /\ Is("acc") /\ (cur = Ev.k \/ (Ev.k = "norms" /\ cur = "norm")) /\ UNCHANGED <<c, m, cur, own, at, run, end, step, goal, v, exp, asked, bye>>
\* values of a task after an operation
\* (the manager may already be in the next operation)
AllRan == \A t \in Tasks : step[t] = step[1] /\ step[t] > 0 /\ Len(v[t]) = Prod(Extents(c.g[t], c.B))
TVal ==
  /\ Is("val") /\ own[Ev.t] = Ev.p /\ Ev.s = step[Ev.t]
  /\ CASE Ev.k \in StepOps -> /\ <<Ev.p, 0, Ev.s>> \in end[Ev.t] /\ v' = [v EXCEPT ![Ev.t] = Ev.v] /\ exp' = exp
       [] Ev.k = "combine" ->
            /\ exp' = IF Ev.n = exp.n THEN exp ELSE [n |-> Ev.n, v |-> CombineAll(c, m, v)]
            /\ Ev.n = exp.n \/ (Ev.n = exp.n + 1 /\ AllRan)
            /\ Ev.v = exp'.v[Ev.t]
            /\ v' = [v EXCEPT ![Ev.t] = exp'.v[Ev.t]]
       \* a task that moved brings the combined solution along
       [] Ev.k = "move" -> Ev.v = v[Ev.t] /\ UNCHANGED <<v, exp>>
  /\ UNCHANGED <<c, m, cur, own, at, run, end, step, goal, asked, bye>>
TDiag == /\ Is("diag") /\ Ev.t \in asked /\ own[Ev.t] = Ev.p /\ UNCHANGED <<c, m, cur, own, at, run, end, step, goal, v, exp, asked, bye>>
TBye == /\ Is("bye") /\ <<Ev.p, Ev.r>> \notin bye /\ bye' = bye \cup {<<Ev.p, Ev.r>>} /\ UNCHANGED <<c, m, cur, own, at, run, end, step, goal, v, exp, asked>>
\* at the end every process has left, and every process of the owner has run every step
TEnd == /\ Is("end") /\ cur = "" /\ bye = {<<g, q>> : g \in 1..c.ng, q \in Procs}
        /\ \A t \in Tasks : at[t] = {<<own[t], q>> : q \in Procs} /\ end[t] = run[t]
                                /\ \A s \in 1..goal : \A q \in Procs : \E g \in 1..c.ng : <<g, q, s>> \in run[t]
        /\ UNCHANGED <<c, m, cur, own, at, run, end, step, goal, v, exp, asked, bye>>
TNext == TCase \/ TOp \/ TRet \/ TTask \/ TBegin \/ TDone \/ TAcc \/ TVal \/ TDiag \/ TBye \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
