------------------------------- MODULE Layout -------------------------------
(* Roles and communicators of the processes of one system: ng groups of np processes each, *)
(* optionally one manager. Processes are 0 .. ng*np - 1 (+ 1) in the world communicator;   *)
(* a communicator is the sequence of its members in rank order.                             *)
EXTENDS Integers, Sequences, FiniteSets
Workers(ng, np) == 0..(ng * np - 1)
Procs(ng, np, mgr) == 0..(ng * np - (IF mgr THEN 0 ELSE 1))
ManagerOf(ng, np) == ng * np
GroupOf(w, np) == w \div np
PosOf(w, np) == w % np
LocalComm(w, np) == [i \in 1..np |-> GroupOf(w, np) * np + i - 1]
ReduceComm(w, ng, np) == [g \in 1..ng |-> (g - 1) * np + PosOf(w, np)]
MasterOf(g, np) == g * np
GlobalComm(ng, np, mgr) == [g \in 1..ng |-> MasterOf(g - 1, np)] \o (IF mgr THEN <<ManagerOf(ng, np)>> ELSE <<>>)
ThirdComm(g, ng, np) == [i \in 1..np |-> g * np + i - 1] \o <<ManagerOf(ng, np)>>
\* the output group has one process per position, spread over the groups
OutputProc(pos, ng, np) == (pos % ng) * np + pos
OutputGroup(ng, np) == [i \in 1..np |-> OutputProc(i - 1, ng, np)]
InOutput(w, ng, np) == w \in Workers(ng, np) /\ OutputProc(PosOf(w, np), ng, np) = w
\* file parts: consecutive positions, np divisible by the number of parts
PartSize(np, parts) == np \div parts
FilePart(w, np, parts) == PosOf(w, np) \div PartSize(np, parts)
OutputComm(w, ng, np, parts) == [i \in 1..PartSize(np, parts) |-> OutputProc(FilePart(w, np, parts) * PartSize(np, parts) + i - 1, ng, np)]
Range(s) == {s[i] : i \in DOMAIN s}
=============================================================================
