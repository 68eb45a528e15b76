------------------------------ MODULE MCLayout ------------------------------
(* All layouts up to a size, re-initialised in any order.                                  *)
EXTENDS Layout
CONSTANTS MaxWorld
VARIABLES ng, np, mgr, parts
vars == <<ng, np, mgr, parts>>
Shapes == {<<g, p>> \in (1..MaxWorld) \X (1..MaxWorld) : g * p <= MaxWorld}
Init == ng = 1 /\ np = 1 /\ mgr = FALSE /\ parts = 1
Reinit == \E s \in Shapes : \E m \in BOOLEAN : ng' = s[1] /\ np' = s[2] /\ mgr' = m /\ parts' = 1
Output == \E k \in 1..np : np % k = 0 /\ parts' = k /\ UNCHANGED <<ng, np, mgr>>
Next == Reinit \/ Output
Spec == Init /\ [][Next]_vars
W == Workers(ng, np)
\* same group <=> same local communicator; communicators of different groups are disjoint
LocalOk == \A v, w \in W : /\ w \in Range(LocalComm(w, np))
                           /\ (v \in Range(LocalComm(w, np))) = (GroupOf(v, np) = GroupOf(w, np))
                           /\ GroupOf(v, np) = GroupOf(w, np) => LocalComm(v, np) = LocalComm(w, np)
                           /\ LocalComm(w, np)[PosOf(w, np) + 1] = w
MasterOk == \A g \in 0..(ng - 1) : Cardinality({w \in W : GroupOf(w, np) = g /\ PosOf(w, np) = 0}) = 1
ReduceOk == \A v, w \in W : /\ (v \in Range(ReduceComm(w, ng, np))) = (PosOf(v, np) = PosOf(w, np))
                            /\ ReduceComm(w, ng, np)[GroupOf(w, np) + 1] = w
                            \* a process is determined by its group and its position
                            /\ (Range(LocalComm(v, np)) \cap Range(ReduceComm(w, ng, np))) = {GroupOf(v, np) * np + PosOf(w, np)}
GlobalOk == Range(GlobalComm(ng, np, mgr)) = {w \in Procs(ng, np, mgr) : (mgr /\ w = ManagerOf(ng, np)) \/ (w \in W /\ PosOf(w, np) = 0)}
OutputOk == /\ \A p \in 0..(np - 1) : Cardinality({w \in Range(OutputGroup(ng, np)) : PosOf(w, np) = p}) = 1
            /\ Len(OutputGroup(ng, np)) = np
            /\ \A w \in W : InOutput(w, ng, np) = (w \in Range(OutputGroup(ng, np)))
            \* spread over the groups as evenly as possible
            /\ \A g, h \in 0..(ng - 1) : Cardinality({w \in Range(OutputGroup(ng, np)) : GroupOf(w, np) = g}) - Cardinality({w \in Range(OutputGroup(ng, np)) : GroupOf(w, np) = h}) <= 1
PartsOk == \A v, w \in Range(OutputGroup(ng, np)) :
             /\ w \in Range(OutputComm(w, ng, np, parts))
             /\ (v \in Range(OutputComm(w, ng, np, parts))) = (FilePart(v, np, parts) = FilePart(w, np, parts))
             /\ FilePart(w, np, parts) \in 0..(parts - 1)
=============================================================================
