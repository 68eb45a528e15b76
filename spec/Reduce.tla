------------------------------- MODULE Reduce -------------------------------
(* Reduction of subspaces between process groups (for one position within the groups).     *)
(* size[g][s]: number of local points group g has of subspace s before anything is agreed. *)
EXTENDS Integers, Sequences, FiniteSets
MaxIn(S) == CHOOSE m \in S : \A x \in S : x <= m
Groups(size) == DOMAIN size
Subspaces(size) == DOMAIN size[CHOOSE g \in DOMAIN size : TRUE]
Holders(size, s) == {g \in Groups(size) : size[g][s] > 0}
Shared(size) == {s \in Subspaces(size) : Cardinality(Holders(size, s)) > 1}
Largest(size, s) == MaxIn({size[g][s] : g \in Groups(size)})
\* sizes after the groups agreed
Agreed(variant, size) ==
  CASE variant = "sg" -> [g \in Groups(size) |-> [s \in Subspaces(size) |-> Largest(size, s)]]
    [] variant = "sub" -> size
    [] variant \in {"out", "chunk"} -> [g \in Groups(size) |-> [s \in Subspaces(size) |-> IF s \in Shared(size) THEN Largest(size, s) ELSE size[g][s]]]
\* what is communicated together: <<members, subspaces>>
CommsOf(variant, size, g) ==
  CASE variant = "sg" -> {}      \* one communicator of all groups, everything
    [] variant = "sub" -> {<<H, {s \in Shared(size) : Holders(size, s) = H}>> : H \in {Holders(size, s) : s \in {s \in Shared(size) : g \in Holders(size, s)}}}
    [] variant \in {"out", "chunk"} -> IF Shared(size) = {} THEN {} ELSE {<<Groups(size), Shared(size)>>}
\* subspaces whose values are summed over groups
Summed(variant, size) == IF variant = "sg" THEN Subspaces(size) ELSE Shared(size)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
\* contribution b[g][s] of group g, zero where it has no points
Total(size, b, s) == SumOver([g \in Groups(size) |-> IF size[g][s] > 0 THEN b[g][s] ELSE 0], Groups(size))
\* value group g must hold after the reduction
Result(variant, size, b, g, s) == IF s \in Summed(variant, size) THEN Total(size, b, s) ELSE b[g][s]
\* --- chunks: greedy packing of an ascending sequence of subspaces
RECURSIVE SizeOf(_, _, _)
SizeOf(sz, S, n) == IF n = 0 THEN 0 ELSE sz[S[n]] + SizeOf(sz, S, n - 1)
RECURSIVE Pack(_, _, _, _, _)
Pack(sz, S, lim, i, cur) ==    \* cur: chunk under construction
  IF i > Len(S) THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF cur # <<>> /\ SizeOf(sz, cur, Len(cur)) + sz[S[i]] >= lim THEN <<cur>> \o Pack(sz, S, lim, i, <<>>)
  ELSE Pack(sz, S, lim, i + 1, Append(cur, S[i]))
Chunks(sz, S, lim) == Pack(sz, S, lim, 1, <<>>)
RECURSIVE Flat(_)
Flat(C) == IF C = <<>> THEN <<>> ELSE Head(C) \o Flat(Tail(C))
\* a sequence of chunks is a legal packing of S
Packing(sz, S, lim, C) ==
  /\ Flat(C) = S
  /\ \A k \in DOMAIN C : C[k] # <<>> /\ (Len(C[k]) = 1 \/ SizeOf(sz, C[k], Len(C[k])) <= lim)
Ascending(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i] < q[j]
=============================================================================
