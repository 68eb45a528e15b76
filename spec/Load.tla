-------------------------------- MODULE Load --------------------------------
(* Load models (estimates from the durations reported per level) and the rebalancing of     *)
(* tasks over process groups.                                                               *)
EXTENDS Grids, TLC
LinearLoad(v) == Pow2(SumSeq(v))
\* the last n elements
LastOf(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
\* average, in q-th parts, rounded down
MeanOf(s, q) == (SumSeq(s) * q) \div Len(s)
\* what was added since durations were last written away (a full batch leaves all but the newest)
Batch == 50
Spill(s) == IF Len(s) > Batch THEN <<SubSeq(s, 1, Batch), SubSeq(s, Batch + 1, Len(s))>> ELSE <<<<>>, s>>
\* ---------------------------------------------------------------- rebalancing
\* place: task -> group; dur: task -> measured duration (0 if none); prog: task -> estimate
Used(place) == {place[t] : t \in DOMAIN place}
RECURSIVE SumSet(_, _)
SumSet(T, f) == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN f[t] + SumSet(T \ {t}, f)
LoadOf(g, place, dur) == SumSet({t \in DOMAIN place : place[t] = g}, dur)
MaxLoad(place, dur) == CHOOSE m \in {LoadOf(g, place, dur) : g \in Used(place)} : \A g \in Used(place) : LoadOf(g, place, dur) <= m
Abs(x) == IF x < 0 THEN -x ELSE x
Mean(place, dur) == SumSet(DOMAIN place, dur) \div Cardinality(Used(place))
\* single moves: from a slowest group to a fastest one, the task that brings it closest to the mean
\* av: mean of the initial groups; imb: needed imbalance in percent
Moves(place, dur, prog, av, imb) ==
  LET ld == TLCEval([g \in Used(place) |-> LoadOf(g, place, dur)])
      slow == {g \in Used(place) : \A h \in Used(place) : ld[h] <= ld[g]}
      fast == {g \in Used(place) : \A h \in Used(place) : ld[h] >= ld[g]}
      far(t, f) == Abs(ld[f] + prog[t] - av)
      best(s, f) == {t \in DOMAIN place : place[t] = s /\ \A u \in DOMAIN place : place[u] = s => far(t, f) <= far(u, f)}
  IN {<<t, f>> \in (DOMAIN place) \X fast : \E s \in slow : ld[s] * 100 >= imb * av /\ t \in best(s, f) /\ ld[f] + prog[t] < ld[s]}
\* no move is possible (for some choice among equals)
Done(place, dur, prog, av, imb) ==
  LET ld == TLCEval([g \in Used(place) |-> LoadOf(g, place, dur)])
      slow == {g \in Used(place) : \A h \in Used(place) : ld[h] <= ld[g]}
      fast == {g \in Used(place) : \A h \in Used(place) : ld[h] >= ld[g]}
      far(t, f) == Abs(ld[f] + prog[t] - av)
      best(s, f) == {t \in DOMAIN place : place[t] = s /\ \A u \in DOMAIN place : place[u] = s => far(t, f) <= far(u, f)}
  IN \E s \in slow : ld[s] * 100 < imb * av \/ \E f \in fast : \E t \in best(s, f) : ld[f] + prog[t] >= ld[s]
\* all placements the rebalancing may end with, together with the tasks it touched
RECURSIVE Ends(_, _, _, _, _, _, _)
Ends(place, touched, dur, prog, av, imb, n) ==
  IF n = 0 THEN {<<place, touched>>}
  ELSE (IF Done(place, dur, prog, av, imb) THEN {<<place, touched>>} ELSE {})
       \cup UNION {Ends([place EXCEPT ![m[1]] = m[2]], touched \cup {m[1]}, dur, prog, av, imb, n - 1) : m \in Moves(place, dur, prog, av, imb)}
Plans(place, dur, prog, imb, n) ==
  LET av == Mean(place, dur) IN IF av = 0 THEN {<<place, {}>>} ELSE Ends(place, {}, dur, prog, av, imb, n)
=============================================================================
