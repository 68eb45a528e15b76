------------------------------ MODULE MCFault ------------------------------
(* All fault histories of a small fault tolerant scheme: any set of grids is lost, the      *)
(* manager decides, the groups combine, the original scheme returns.                        *)
EXTENDS Fault
CONSTANTS Lo, Hi, Rounds
Lo2 == <<1, 2>>
Hi2 == <<3, 4>>
Lo2b == <<1, 1>>
Hi2b == <<4, 4>>
Lo3 == <<1, 1, 1>>
Hi3 == <<3, 3, 3>>
Lo1 == <<2>>
Hi1 == <<5>>
\* scheme: the classical one with two further diagonals of coefficient zero
I == ClassSet(Lo, Hi)
S0 == SchemeOf(I)
Eff == Cardinality(Refined(Lo, Hi))
N == SumSeq(ClassLow(Lo, Hi)) + ClassWidth(Lo, Hi)
G == Levels(S0) \cup ExtraGrids(I, N, Eff)
Lmin == ClassLow(Lo, Hi)
Orig == TLCEval([v \in G |-> CoefOf(v, I)])
D == TLCEval(Cover(G, Lmin))
Mx == MaxSum(G)
VARIABLES ph, lost, coef, again, round
vars == <<ph, lost, coef, again, round>>
Init == ph = "run" /\ lost = {} /\ coef = Orig /\ again = {} /\ round = 0
\* during a run any set of grids is lost
Lose == ph = "run" /\ round < Rounds /\ \E F \in SUBSET G : F # {} /\ lost' = F
        /\ ph' = "lost" /\ round' = round + 1 /\ UNCHANGED <<coef, again>>
NoLoss == ph = "run" /\ round < Rounds /\ ph' = "combined" /\ round' = round + 1 /\ UNCHANGED <<lost, coef, again>>
\* the manager takes a best choice
Decide == /\ ph = "lost"
          /\ LET X == lost \cap Fine(G, Mx)
                 best == BestWorth(D, X, Mx)
             IN \E V \in {U \in Choices(D, X) : Worth(U, Mx) = best} :
                  /\ coef' = [v \in G |-> CoefIn(v, V)]
                  /\ again' = {v \in lost : CoefIn(v, V) # 0}
          /\ ph' = "decided" /\ UNCHANGED <<lost, round>>
\* lost grids in use are computed again, the others start from the combined solution
Recompute == ph = "decided" /\ lost' = lost \ again /\ again' = {} /\ ph' = "ready" /\ UNCHANGED <<coef, round>>
Combine == ph = "ready" /\ lost' = {} /\ ph' = "combined" /\ UNCHANGED <<coef, again, round>>
Restore == ph = "combined" /\ coef' = Orig /\ ph' = "run" /\ UNCHANGED <<lost, again, round>>
Next == Lose \/ NoLoss \/ Decide \/ Recompute \/ Combine \/ Restore
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_, _)
Total(T, f) == IF T = {} THEN 0 ELSE LET v == CHOOSE x \in T : TRUE IN f[v] + Total(T \ {v}, f)
Counted(v) == Total({x \in G : LeqV(v, x)}, coef)
\* ---------------------------------------------------------------- properties
\* what is added up when combining was not lost
LostUnused == ph = "ready" => \A v \in lost : coef[v] = 0
Once == \A v \in D : Counted(v) \in {0, 1}
\* grids of the finest diagonals are never computed again
Cheap == again \cap Fine(G, Mx) = {}
\* the combination still reproduces constants unless the coarsest level fell
KeepsBase == (ph = "decided" /\ Lmin \notin lost) => Counted(Lmin) = 1
\* one lost grid of the finest diagonal costs that subspace only
OneFine == \A v \in G : (ph = "decided" /\ lost = {v} /\ SumSeq(v) = Mx /\ Orig[v] # 0) => {u \in D : Counted(u) = 0} = {v}
Back == ph = "run" => coef = Orig /\ lost = {} /\ again = {}
=============================================================================
