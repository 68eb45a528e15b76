------------------------------ MODULE MCReduce ------------------------------
(* Every process group (one process each) reduces its subspaces with a sequence of         *)
(* collective operations, possibly by several threads that take the next communicator from *)
(* a common list. A collective completes once all its members have arrived. Contribution   *)
(* of group g to any subspace is 2^(g-1): the sum tells which groups were counted.          *)
EXTENDS Reduce, TLC
CONSTANTS NG, NS, MaxSize, Limits, Threads, Variants
VARIABLES variant, size, lim, val, job, pos, arrived, next, work
vars == <<variant, size, lim, val, job, pos, arrived, next, work>>
G == 1..NG
S == 1..NS
T == 1..Threads
P2(g) == IF g = 1 THEN 1 ELSE IF g = 2 THEN 2 ELSE 4
\* work list of a group: sequence of <<members, chunks>>, in an order all groups derive alike
RECURSIVE SumP2(_)
SumP2(H) == IF H = {} THEN 0 ELSE LET x == CHOOSE x \in H : TRUE IN P2(x) + SumP2(H \ {x})
Jobs(v, z, g, n) ==
  LET a == Agreed(v, z)
      cs == IF v = "sg" THEN {<<G, S>>} ELSE CommsOf(v, z, g)
      \* sorted by the vote
      q == IF cs = {} THEN <<>> ELSE
           CHOOSE q \in [1..Cardinality(cs) -> cs] : \A i, j \in 1..Cardinality(cs) : i < j => SumP2(q[i][1]) < SumP2(q[j][1])
  IN [k \in DOMAIN q |-> <<q[k][1], Chunks(a[g], Ascending(q[k][2]), n)>>]
Sizes == {f \in [G -> [S -> 0..MaxSize]] :
            /\ \A s \in S : \A g, h \in G : f[g][s] > 0 /\ f[h][s] > 0 => f[g][s] = f[h][s]
            /\ \A g \in G : \E s \in S : f[g][s] > 0}
\* the out-group variants need every group to share something
Allowed(v, z) == v \notin {"out", "chunk"} \/ Shared(z) = {} \/ \A g \in G : \E s \in Shared(z) : z[g][s] > 0
Init == /\ variant \in Variants /\ size \in Sizes /\ Allowed(variant, size) /\ lim \in Limits
        /\ val = [g \in G |-> [s \in S |-> IF size[g][s] > 0 THEN P2(g) ELSE 0]]
        /\ job = [g \in G |-> [t \in T |-> 0]] /\ pos = [g \in G |-> [t \in T |-> 0]]
        /\ arrived = {} /\ next = [g \in G |-> 1]
        /\ work = [g \in G |-> Jobs(variant, size, g, lim)]
Work(g) == work[g]
\* a thread takes the next communicator of its group
Take(g, t) == /\ job[g][t] = 0 /\ next[g] <= Len(Work(g))
              /\ job' = [job EXCEPT ![g][t] = next[g]] /\ pos' = [pos EXCEPT ![g][t] = 1]
              /\ next' = [next EXCEPT ![g] = @ + 1] /\ UNCHANGED <<work, variant, size, lim, val, arrived>>
\* it enters the collective for its current chunk and waits
Arrive(g, t) == /\ job[g][t] # 0 /\ ~\E a \in arrived : a[1] = g /\ a[2] = t
                /\ pos[g][t] <= Len(Work(g)[job[g][t]][2])
                /\ arrived' = arrived \cup {<<g, t, Work(g)[job[g][t]][1], pos[g][t]>>}
                /\ UNCHANGED <<work, variant, size, lim, val, job, pos, next>>
Leave(g, t) == /\ job[g][t] # 0 /\ pos[g][t] > Len(Work(g)[job[g][t]][2])
               /\ job' = [job EXCEPT ![g][t] = 0] /\ UNCHANGED <<work, variant, size, lim, val, pos, arrived, next>>
ChunkOf(a) == Work(a[1])[job[a[1]][a[2]]][2][a[4]]
Complete(H) ==
  LET A == {a \in arrived : a[3] = H}
  IN /\ {a[1] : a \in A} = H /\ A # {}
     /\ \A a, b \in A : ChunkOf(a) = ChunkOf(b) /\ a[4] = b[4]
     /\ LET ch == ChunkOf(CHOOSE a \in A : TRUE)
            in == {ch[i] : i \in DOMAIN ch}
        IN val' = [g \in G |-> [s \in S |-> IF g \in H /\ s \in in THEN SumOver([h \in H |-> val[h][s]], H) ELSE val[g][s]]]
     /\ pos' = [g \in G |-> [t \in T |-> IF \E a \in A : a[1] = g /\ a[2] = t THEN pos[g][t] + 1 ELSE pos[g][t]]]
     /\ arrived' = arrived \ A /\ UNCHANGED <<work, variant, size, lim, job, next>>
Finished == \A g \in G : next[g] > Len(Work(g)) /\ \A t \in T : job[g][t] = 0
Done == Finished /\ UNCHANGED vars
Next == \/ \E g \in G, t \in T : Take(g, t) \/ Arrive(g, t) \/ Leave(g, t)
        \/ \E H \in SUBSET G : Complete(H)
        \/ Done
Spec == Init /\ [][Next]_vars
\* deadlock freedom is checked by TLC; at the end every group has every contribution exactly once
Correct == Finished => \A g \in G : \A s \in S : (Agreed(variant, size)[g][s] > 0) =>
             val[g][s] = Result(variant, size, [h \in G |-> [x \in S |-> IF size[h][x] > 0 THEN P2(h) ELSE 0]], g, s)
NoNewData == \A g \in G : \A s \in S : Agreed(variant, size)[g][s] = 0 => val[g][s] = 0
\* members of a collective always agree about its content
SameContent == \A a, b \in arrived : a[3] = b[3] /\ a[4] = b[4] => ChunkOf(a) = ChunkOf(b)
ChunksOk == (arrived = {}) => \A g \in G : LET a == Agreed(variant, size)[g] IN Packing(a, Ascending(S), lim, Chunks(a, Ascending(S), lim))
Disjoint == (arrived = {}) => \A g \in G : LET w == Work(g) IN \A i, j \in DOMAIN w : i # j =>
              {Flat(w[i][2])[k] : k \in DOMAIN Flat(w[i][2])} \cap {Flat(w[j][2])[k] : k \in DOMAIN Flat(w[j][2])} = {}
=============================================================================
