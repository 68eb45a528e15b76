------------------------------- MODULE Fault -------------------------------
(* Combination after grids were lost: new coefficients such that no lost grid is used      *)
(* (unless it is computed again), every subspace is counted once or not at all, and as much *)
(* as possible of the sparse grid is kept; afterwards the original scheme comes back.       *)
EXTENDS Scheme, TLC
\* subspaces between lmin and some grid of the scheme (G: set of levels)
Cover(G, lmin) == UNION {Box(lmin, v) : v \in G}
\* how often subspace v is counted; gs, co: sequences of levels and coefficients
RECURSIVE CountTo(_, _, _, _)
CountTo(v, gs, co, n) == IF n = 0 THEN 0 ELSE (IF LeqV(v, gs[n]) THEN co[n] ELSE 0) + CountTo(v, gs, co, n - 1)
Count(v, gs, co) == CountTo(v, gs, co, Len(gs))
\* weight of a subspace: what leaving it out costs
RECURSIVE Pow4(_)
Pow4(n) == IF n = 0 THEN 1 ELSE 4 * Pow4(n - 1)
MaxSum(G) == MaxOf({SumSeq(v) : v \in G})
RECURSIVE Worth(_, _)
Worth(V, m) == IF V = {} THEN 0 ELSE LET v == CHOOSE x \in V : TRUE IN Pow4(m - SumSeq(v)) + Worth(V \ {v}, m)
\* coefficient of grid v if exactly the subspaces in V are counted
CoefIn(v, V) == SumSigns({z \in Steps(v) : Add(v, z) \in V})
\* grids that are too expensive to compute again: the two finest diagonals
Fine(G, m) == {v \in G : SumSeq(v) \in {m, m - 1}}
\* counted sets that do without the lost fine grids X
Choices(D, X) == {V \in SUBSET D : \A v \in X : CoefIn(v, V) = 0}
BestWorth(D, X, m) == MaxOf({Worth(V, m) : V \in Choices(D, X)})
\* a choice that always exists: give up everything at or above a lost fine grid
Cut(D, X) == {v \in D : \A x \in X : ~LeqV(x, v)}
SetOf(s) == {s[i] : i \in DOMAIN s}
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
(* gs: levels, co: original coefficients, lmin; f: numbers of the lost grids;               *)
(* nc: new coefficients, red: lost grids moved without computing, rec: computed again       *)
Accepts(gs, co, lmin, m, f, nc, red, rec, small) ==
  LET F == SetOf(f)
      D == TLCEval(Cover(SetOf(gs), lmin))
      X == {gs[i] : i \in {j \in F : gs[j] \in Fine(SetOf(gs), m)}}
      W == TLCEval([v \in D |-> Count(v, gs, nc)])
      V == TLCEval({v \in D : W[v] = 1})
  IN /\ SetOf(red) \cup SetOf(rec) = F /\ SetOf(red) \cap SetOf(rec) = {}
     /\ Increasing(red) /\ Increasing(rec)
     /\ \A i \in F : i \in SetOf(rec) <=> nc[i] # 0
     /\ \A i \in SetOf(rec) : gs[i] \notin X
     /\ \A v \in D : W[v] \in {0, 1}
     /\ X = {} => nc = co
     /\ Worth(V, m) >= Worth(Cut(D, X), m)
     /\ (lmin \in Cut(D, X)) => W[lmin] = 1
     /\ Cardinality(D) <= small => Worth(V, m) = BestWorth(D, X, m)
=============================================================================
