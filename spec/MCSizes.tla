------------------------------ MODULE MCSizes ------------------------------
(* Systems register their grids in any order, write their sizes, agree on the conjoint    *)
(* subspaces and exchange only those: afterwards every system has, in each of its         *)
(* subspaces, the sum over all systems.                                                   *)
EXTENDS Sizes, TLC
CONSTANTS N, LMAX, MAXG
Levels == (1..LMAX) \X (1..LMAX)
VARIABLES left, sizes, val, conj, out
vars == <<left, sizes, val, conj, out>>
Len1(v) == v[1] + LMAX * v[2]
GridSets == {S \in SUBSET Levels : S # {} /\ Cardinality(S) <= MAXG}
SeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : {q[i] : i \in DOMAIN q} = S
VARIABLE sys
Init == /\ sys \in [1..N -> GridSets] /\ left = sys
        /\ sizes = [s \in 1..N |-> [v \in Levels |-> 0]]
        /\ val = [s \in 1..N |-> [v \in Levels |-> 0]]
        /\ conj = <<>> /\ out = <<>>
Register(s) == \E g \in left[s] :
  /\ left' = [left EXCEPT ![s] = @ \ {g}]
  /\ sizes' = [sizes EXCEPT ![s] = [v \in Levels |-> IF Below(v, g) THEN Len1(v) ELSE @[v]]]
  /\ val' = [val EXCEPT ![s] = [v \in Levels |-> IF Below(v, g) THEN @[v] + (10 * s + g[1]) ELSE @[v]]]
  /\ UNCHANGED <<sys, conj, out>>
\* computed from the sizes only
Agree == /\ conj = <<>> /\ \A s \in 1..N : left[s] = {}
         /\ conj' = [v \in Levels |-> LET O == {s \in 1..N : sizes[s][v] > 0} IN IF Cardinality(O) > 1 THEN sizes[CHOOSE s \in O : TRUE][v] ELSE 0]
         /\ UNCHANGED <<sys, left, sizes, val, out>>
RECURSIVE SumOver(_, _, _)
SumOver(S, f, v) == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN f[s][v] + SumOver(S \ {s}, f, v)
Exchange == /\ conj # <<>> /\ out = <<>>
            /\ out' = [s \in 1..N |-> [v \in Levels |-> IF conj[v] > 0 THEN SumOver(1..N, val, v) ELSE val[s][v]]]
            /\ UNCHANGED <<sys, left, sizes, val, conj>>
Next == (\E s \in 1..N : Register(s)) \/ Agree \/ Exchange
Spec == Init /\ [][Next]_<<vars, sys>>
Seqs == [s \in 1..N |-> SeqOf(sys[s])]
SizesOk == \A s \in 1..N : left[s] = {} => \A v \in Levels : sizes[s][v] = Entry(SeqOf(sys[s]), v, Len1(v))
ConjOk == conj # <<>> => \A v \in Levels : conj[v] = ConjointEntry(Seqs, v, Len1(v))
ExchangeOk == out # <<>> => \A s \in 1..N : \A v \in Levels : Has(SeqOf(sys[s]), v) => out[s][v] = SumOver(1..N, val, v)
=============================================================================
