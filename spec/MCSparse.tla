------------------------------ MODULE MCSparse ------------------------------
(* Exhaustive model of a distributed sparse grid on a small domain: component grids are   *)
(* registered, added with a coefficient and extracted again; subspaces may be allocated   *)
(* selectively. Every process stores its own part; invariants relate the parts to the     *)
(* undistributed sparse grid.                                                             *)
EXTENDS Sparse, TLC
CONSTANTS RefLevel, Bnd, Procs, GridLevels, MaxOps
VARIABLES dec, part, sg, reg, alloc, data, ghost, grid, ops
vars == <<dec, part, sg, reg, alloc, data, ghost, grid, ops>>
R == RefLevel
B == Bnd
Ext == Extents(R, B)
N == Prod(Ext)
Names == 0..(N - 1)
Coords == {c \in [DOMAIN R -> 0..2] : \A d \in DOMAIN R : c[d] < Procs[d]}
Cuts(d) == {s \in [1..Procs[d] -> 0..(Ext[d] - 1)] : s[1] = 0 /\ \A k \in 1..(Procs[d] - 1) : s[k] < s[k + 1]}
Subs == DownSet(R)
DownClosed(S) == \A v \in S : DownSet(v) \subseteq S
\* what a process stores for a subspace: a sequence of numbers
Part(c, V) == part[c][V]
SubOf == [p \in Names |-> SubspaceOfName(p, R, B)]
On == [L \in GridLevels |-> [p \in Names |-> IF LeqV(SubOf[p], L) THEN IndexOn(p, L, R, B) ELSE -1]]
Nm == [L \in GridLevels |-> [i \in 0..(Prod(Extents(L, B)) - 1) |-> NameOf(i, L, R, B)]]
Empty == [c \in Coords |-> [V \in Subs |-> <<>>]]
Init == /\ dec \in {f \in [DOMAIN R -> UNION {Cuts(d) : d \in DOMAIN R}] : \A d \in DOMAIN R : f[d] \in Cuts(d)}
        /\ part = [c \in Coords |-> [V \in Subs |-> SubspaceOn(V, R, B, dec, c)]]
        /\ sg \in {S \in SUBSET Subs : S # {} /\ DownClosed(S)}
        /\ reg = {} /\ alloc = {} /\ data = Empty /\ ghost = [p \in Names |-> 0]
        /\ grid = [L \in GridLevels |-> [i \in 0..(Prod(Extents(L, B)) - 1) |-> i + 1]] /\ ops = 0
Step == ops < MaxOps /\ ops' = ops + 1
Register(L) == /\ Step /\ alloc = {} /\ L \notin reg /\ reg' = reg \cup {L} /\ UNCHANGED <<dec, part, sg, alloc, data, ghost, grid>>
Registered == {V \in sg : \E L \in reg : LeqV(V, L)}
Choices == {Registered} \cup {{V \in Registered : V[1] = 1}}
Allocate == \E A \in Choices :
               /\ Step /\ reg # {} /\ A # {} /\ alloc' = A
               /\ data' = [c \in Coords |-> [V \in Subs |-> IF V \in A /\ V \in Registered THEN [k \in DOMAIN Part(c, V) |-> 0] ELSE <<>>]]
               /\ ghost' = [p \in Names |-> 0] /\ UNCHANGED <<dec, part, sg, reg, grid>>
AddGrid(L, co) == /\ Step /\ L \in reg /\ alloc # {}
               /\ data' = [c \in Coords |-> [V \in Subs |-> LET q == Part(c, V) IN
                             IF LeqV(V, L) THEN [k \in DOMAIN data[c][V] |-> data[c][V][k] + co * grid[L][On[L][q[k]]]] ELSE data[c][V]]]
               /\ ghost' = [p \in Names |-> LET V == SubOf[p] IN
                             IF V \in alloc /\ V \in sg /\ LeqV(V, L) THEN ghost[p] + co * grid[L][On[L][p]] ELSE ghost[p]]
               /\ UNCHANGED <<dec, part, sg, reg, alloc, grid>>
\* every process writes its part back into the component grid
Extract(L) == /\ Step /\ L \in reg /\ alloc # {}
              /\ grid' = [grid EXCEPT ![L] = [i \in DOMAIN grid[L] |->
                    LET p == Nm[L][i]
                        V == SubOf[p]
                        c == OwnerCoords(dec, VecIdx(p, Ext))
                        q == Part(c, V)
                    IN IF data[c][V] = <<>> THEN grid[L][i] ELSE data[c][V][CHOOSE k \in DOMAIN q : q[k] = p]]]
              /\ UNCHANGED <<dec, part, sg, reg, alloc, data, ghost>>
Next == \/ \E L \in GridLevels : Register(L) \/ Extract(L) \/ \E co \in {1, -1} : AddGrid(L, co)
        \/ Allocate
Spec == Init /\ [][Next]_vars
\* every point is stored by exactly one process, in exactly one subspace, at one place
StoredOnce == \A p \in Names : Cardinality({<<c, V, k>> \in Coords \X Subs \X (1..N) : k \in DOMAIN Part(c, V) /\ Part(c, V)[k] = p}) = 1
StoredInit == ops = 0 => StoredOnce
Faithful == \A c \in Coords : \A V \in alloc \cap Registered : \A k \in DOMAIN data[c][V] : data[c][V][k] = ghost[Part(c, V)[k]]
\* extraction changes nothing outside the allocated subspaces
Untouched == [][\A L \in GridLevels : \A i \in DOMAIN grid[L] :
                  grid'[L][i] # grid[L][i] => SubOf[Nm[L][i]] \in alloc \cap Registered]_vars
=============================================================================
