------------------------------- MODULE MCDist -------------------------------
(* Distribution of the grids of a scheme: the greedy rule (largest grid first, to the      *)
(* least loaded group) and round robin give every grid to exactly one group; the greedy    *)
(* loads differ by at most the largest grid; splitting by fractions gives consecutive      *)
(* pieces that make up the scheme.                                                         *)
EXTENDS Scheme
CONSTANTS MaxGrids, MaxGroups, MaxWeight
VARIABLES w, ng, todo, owner, cut
vars == <<w, ng, todo, owner, cut>>
Init == \E n \in 1..MaxGrids : \E f \in [1..n -> 1..MaxWeight] : \E g \in 1..MaxGroups :
          /\ w = f /\ ng = g /\ todo = 1..n /\ owner = [i \in 1..n |-> 0] /\ cut = <<>>
Load(g) == SumOver(w, {i \in DOMAIN w : owner[i] = g})
Greedy == /\ todo # {}
          /\ \E i \in {j \in todo : \A k \in todo : w[j] >= w[k]} : \E g \in {h \in 1..ng : \A k \in 1..ng : Load(h) <= Load(k)} :
                owner' = [owner EXCEPT ![i] = g] /\ todo' = todo \ {i}
          /\ UNCHANGED <<w, ng, cut>>
\* fractions in quarters, rounded end positions
Round(a, b) == (2 * a + b) \div (2 * b)
RECURSIVE Scan(_, _)
Scan(f, k) == IF k = 0 THEN 0 ELSE f[k] + Scan(f, k - 1)
Split == /\ cut = <<>> /\ todo = {}
         /\ \E f \in [1..ng -> 0..4] : SumSeq(f) = 4 /\ cut' = [k \in 1..ng |-> Round(Len(w) * Scan(f, k), 4)]
         /\ UNCHANGED <<w, ng, todo, owner>>
Next == Greedy \/ Split
Spec == Init /\ [][Next]_vars
Parts == [g \in 1..ng |-> Asc({i \in DOMAIN w : owner[i] = g})]
RR == [g \in 1..ng |-> Asc({i \in DOMAIN w : (i - 1) % ng = g - 1})]
InvGreedy == todo = {} => Partition(Parts, Len(w)) /\ \A g, h \in 1..ng : Load(g) - Load(h) <= MaxOf({w[i] : i \in DOMAIN w})
InvRR == Partition(RR, Len(w)) /\ \A g, h \in 1..ng : Len(RR[g]) - Len(RR[h]) <= 1
InvCut == cut # <<>> => /\ cut[ng] = Len(w) /\ \A k \in 1..(ng - 1) : cut[k] <= cut[k + 1]
=============================================================================
