------------------------------ MODULE MCExtreme -----------------------------
(* How a report comes about: every process collects the extremes of the points it holds    *)
(* (chunk by chunk, maybe over several combinations), the processes of a group send theirs *)
(* to the first process of the group, and these to the first group; then all forget them.  *)
(* One subspace; a process either has points of it or not.                                  *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NG, NP, Vals, Reports, Collects
VARIABLES has, acc, seen, phase, n, left
vars == <<has, acc, seen, phase, n, left>>
Procs == (1..NG) \X (1..NP)
Hi == 100
Empty == <<Hi, 0 - Hi>>
Mrg(a, b) == <<IF a[1] < b[1] THEN a[1] ELSE b[1], IF a[2] > b[2] THEN a[2] ELSE b[2]>>
Init == /\ has \in [Procs -> BOOLEAN] /\ acc = [p \in Procs |-> Empty] /\ seen = {}
        /\ phase = [p \in Procs |-> "work"] /\ n = 0 /\ left = [p \in Procs |-> Collects]
\* a process looks at the coefficients of one more chunk or combination
Collect(p, v) == /\ phase[p] = "work" /\ has[p] /\ left[p] > 0
                 /\ acc' = [acc EXCEPT ![p] = Mrg(@, <<v, v>>)] /\ seen' = seen \cup {<<p, v>>} /\ left' = [left EXCEPT ![p] = @ - 1]
                 /\ UNCHANGED <<has, phase, n>>
\* all processes are asked for a report; a process of a group sends to its first process
Send(p) == /\ phase[p] = "work" /\ n < Reports /\ p[2] # 1
           /\ acc' = [acc EXCEPT ![<<p[1], 1>>] = Mrg(@, acc[p]), ![p] = Empty]
           /\ phase' = [phase EXCEPT ![p] = "sent"] /\ UNCHANGED <<has, seen, n, left>>
\* the first process of a group other than the first sends on what its group has
Root(g) == \A q \in 2..NP : phase[<<g, q>>] = "sent"
Forward(g) == /\ g # 1 /\ phase[<<g, 1>>] = "work" /\ n < Reports /\ Root(g)
              /\ acc' = [acc EXCEPT ![<<1, 1>>] = Mrg(@, acc[<<g, 1>>]), ![<<g, 1>>] = Empty]
              /\ phase' = [phase EXCEPT ![<<g, 1>>] = "sent"] /\ UNCHANGED <<has, seen, n, left>>
Complete == n < Reports /\ Root(1) /\ \A g \in 2..NG : phase[<<g, 1>>] = "sent"
Report == /\ Complete /\ n' = n + 1
          /\ acc' = [p \in Procs |-> Empty] /\ seen' = {} /\ phase' = [p \in Procs |-> "work"] /\ left' = [p \in Procs |-> Collects]
          /\ UNCHANGED has
Next == (\E p \in Procs : Send(p) \/ \E v \in Vals : Collect(p, v)) \/ (\E g \in 1..NG : Forward(g)) \/ Report
        \/ (n = Reports /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Smallest == IF seen = {} THEN Hi ELSE CHOOSE a \in {x[2] : x \in seen} : \A b \in {x[2] : x \in seen} : a <= b
Largest == IF seen = {} THEN 0 - Hi ELSE CHOOSE a \in {x[2] : x \in seen} : \A b \in {x[2] : x \in seen} : a >= b
\* what is about to be written are the extremes of all processes since the last report
Right == Complete => acc[<<1, 1>>] = <<Smallest, Largest>>
=============================================================================
