-------------------------------- MODULE Stats --------------------------------
(* Timing records: every process starts and stops named events, and the processes of a       *)
(* communicator together write what happened.  A partial file contains the events that       *)
(* ended since the partial file before; the final file contains all events of the session.   *)
EXTENDS Integers, Sequences, FiniteSets
\* an event: [n name, s start, t end (or Open)], in the order they started
Open == -1
Started(es, n, s) == Append(es, [n |-> n, s |-> s, t |-> Open])
\* the last event of this name, if it is still running
RECURSIVE LastOf(_, _, _)
LastOf(es, n, i) == IF i = 0 THEN 0 ELSE IF es[i].n = n THEN i ELSE LastOf(es, n, i - 1)
Running(es, n) == LET i == LastOf(es, n, Len(es)) IN i # 0 /\ es[i].t = Open
Stopped(es, n, t) == [es EXCEPT ![LastOf(es, n, Len(es))].t = t]
\* the events of name n that ended and are not in "done" (positions), in order
Ended(es, done) == {i \in DOMAIN es : es[i].t # Open /\ i \notin done}
NamesOf(es, S) == {es[i].n : i \in S}
OfName(es, S, n) == LET T == {i \in S : es[i].n = n}
                        RECURSIVE Asc(_)
                        Asc(U) == IF U = {} THEN <<>> ELSE LET x == CHOOSE y \in U : \A z \in U : y <= z IN <<x>> \o Asc(U \ {x})
                    IN Asc(T)
==============================================================================
