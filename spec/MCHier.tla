------------------------------- MODULE MCHier -------------------------------
(* Exhaustive model of the basis changes on poles: hierarchize, truncate, dehierarchize. *)
EXTENDS Hier
CONSTANTS MaxLevel, Vals
VARIABLES phase, n, b, basis, m, nodal, cur
vars == <<phase, n, b, basis, m, nodal, cur>>
Scale == 8 * Pow2(3 * MaxLevel)
Bases(bb) == CASE bb = 0 -> {"hat"} [] bb = 1 -> {"hat", "hatp", "fwp", "bop"} [] bb = 2 -> {"hat", "hatp", "fw", "bo"}
Lmins(bb) == IF bb = 0 THEN {0} ELSE 0..MaxLevel
Init == /\ phase = "nodal" /\ n \in 1..MaxLevel /\ b \in 0..2 /\ basis \in Bases(b) /\ m \in Lmins(b)
        /\ nodal \in [1..NumPoints(n, b) -> {Scale * v : v \in Vals}] /\ cur = nodal
DoHier == /\ phase = "nodal" /\ cur' = Hierarchize(cur, <<n>>, <<b>>, <<basis>>, <<TRUE>>, <<m>>)
          /\ phase' = "hier" /\ UNCHANGED <<n, b, basis, m, nodal>>
DoDehier == /\ phase = "hier" /\ cur' = Dehierarchize(cur, <<n>>, <<b>>, <<basis>>, <<TRUE>>, <<m>>)
            /\ phase' = "back" /\ UNCHANGED <<n, b, basis, m, nodal>>
\* dropping all coefficients above the minimum level
Truncate == /\ phase = "hier" /\ m < n
            /\ cur' = [i \in DOMAIN cur |-> IF Level1(i - 1, n, b) > m THEN 0 ELSE cur[i]]
            /\ phase' = "trunc" /\ UNCHANGED <<n, b, basis, m, nodal>>
DehierT == /\ phase = "trunc" /\ cur' = Dehierarchize(cur, <<n>>, <<b>>, <<basis>>, <<TRUE>>, <<m>>)
           /\ phase' = "truncback" /\ UNCHANGED <<n, b, basis, m, nodal>>
Next == DoHier \/ DoDehier \/ Truncate \/ DehierT
Spec == Init /\ [][Next]_vars
RoundTrip == phase = "back" => cur = nodal
\* twice the trapezoidal mass
Mass(F) == LET w(i) == IF b = 2 /\ i \in {1, Len(F)} THEN 1 ELSE 2
           IN SumSeq([i \in 1..Len(F) |-> w(i) * F[i]])
MassKept == (phase = "truncback" /\ basis \in {"fw", "bo", "fwp", "bop"}) => Mass(cur) = Mass(nodal)
\* a function that is linear has no surpluses above level one
LinearHasNone == (phase = "hier" /\ b = 2 /\ basis = "hat" /\
                  \E c \in {Scale \div 8, 0, -(Scale \div 8)} : \A i \in DOMAIN nodal : nodal[i] = nodal[1] + (i - 1) * c)
                 => \A i \in DOMAIN cur : Level1(i - 1, n, b) > m => cur[i] = 0
=============================================================================
