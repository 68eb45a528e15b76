------------------------------- MODULE MCLoad -------------------------------
(* Rebalancing of small placements, all durations: every single move helps.                *)
(* Noise: the estimates may differ from the measured durations.                             *)
EXTENDS Load
CONSTANTS T, G, D, Noise, Imb
VARIABLES place, dur, prog, av
vars == <<place, dur, prog, av>>
Init == /\ place \in [1..T -> 1..G] /\ dur \in [1..T -> 0..D]
        /\ prog \in (IF Noise THEN [1..T -> 0..D] ELSE {dur})
        /\ av = Mean(place, dur)
Move == /\ av # 0
        /\ \E m \in Moves(place, dur, prog, av, Imb) : place' = [place EXCEPT ![m[1]] = m[2]]
        /\ UNCHANGED <<dur, prog, av>>
\* new measurements
Measure == /\ \E t \in 1..T, x \in 0..D : dur' = [dur EXCEPT ![t] = x] /\ prog' = (IF Noise THEN prog ELSE dur')
           /\ av' = Mean(place, dur') /\ UNCHANGED place
Next == Move \/ Measure
Spec == Init /\ [][Next]_vars
RECURSIVE Squares(_)
Squares(S) == IF S = {} THEN 0 ELSE LET g == CHOOSE x \in S : TRUE IN LoadOf(g, place, dur) * LoadOf(g, place, dur) + Squares(S \ {g})
\* exact estimates: the slowest group never gets slower, no group is emptied, moves cannot go on forever
Improves == [][dur' = dur /\ ~Noise /\ place' # place => MaxLoad(place', dur) <= MaxLoad(place, dur) /\ Squares(1..G)' <= Squares(1..G) /\ (\A t \in 1..T : place'[t] # place[t] /\ dur[t] > 0 => Squares(1..G)' < Squares(1..G))]_vars
KeepsGroups == [][dur' = dur /\ ~Noise => Used(place') = Used(place)]_vars
\* any estimates: only groups in use receive tasks
OnlyUsed == [][Used(place') \subseteq Used(place)]_vars
\* a plan is always defined, its moves are within the placement
PlanDefined == \A n \in 0..3 : Plans(place, dur, prog, Imb, n) # {} /\ \A p \in Plans(place, dur, prog, Imb, n) : Cardinality(p[2]) <= n
=============================================================================
