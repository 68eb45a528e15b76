------------------------------- MODULE MCStats -------------------------------
(* How partial files are filled: a process reports the events that ended after the moment of *)
(* its last report, and takes the clock after the files were written.  Whatever the          *)
(* processes do in between, every event is in exactly one partial file after it ended, none  *)
(* that still runs is, and all processes of one file give it the same number.                *)
EXTENDS Stats, TLC
CONSTANTS NP, Names, MaxEvents, MaxFiles
Procs == 1..NP
VARIABLES es, clock, until, nw, files, at, part
\* at[p]: working, waiting (its part is composed), returned (file complete, clock not yet taken)
vars == <<es, clock, until, nw, files, at, part>>
Init == es = [p \in Procs |-> <<>>] /\ clock = 1 /\ until = [p \in Procs |-> 0] /\ nw = [p \in Procs |-> 0]
        /\ files = <<>> /\ at = [p \in Procs |-> "work"] /\ part = [p \in Procs |-> {}]
Tick == clock' = clock + 1
Start(p, n) == /\ at[p] = "work" /\ Len(es[p]) < MaxEvents /\ ~Running(es[p], n) /\ Tick
               /\ es' = [es EXCEPT ![p] = Started(@, n, clock)] /\ UNCHANGED <<until, nw, files, at, part>>
Stop(p, n) == /\ at[p] = "work" /\ Running(es[p], n) /\ Tick
              /\ es' = [es EXCEPT ![p] = Stopped(@, n, clock)] /\ UNCHANGED <<until, nw, files, at, part>>
\* composes its part; the file is written when all have
Compose(p) == /\ at[p] = "work" /\ nw[p] < MaxFiles /\ at' = [at EXCEPT ![p] = "wait"]
              /\ part' = [part EXCEPT ![p] = {i \in DOMAIN es[p] : es[p][i].t # Open /\ es[p][i].t # es[p][i].s /\ es[p][i].t > until[p]}]
              /\ nw' = [nw EXCEPT ![p] = @ + 1] /\ UNCHANGED <<es, clock, until, files>>
Write == /\ (\A p \in Procs : at[p] = "wait") /\ files' = Append(files, [k |-> {nw[p] : p \in Procs}, part |-> part])
         /\ at' = [p \in Procs |-> "back"] /\ UNCHANGED <<es, clock, until, nw, part>>
Back(p) == /\ at[p] = "back" /\ at' = [at EXCEPT ![p] = "work"] /\ until' = [until EXCEPT ![p] = clock] /\ Tick
           /\ UNCHANGED <<es, nw, files, part>>
Next == Write \/ \E p \in Procs : Compose(p) \/ Back(p) \/ \E n \in Names : Start(p, n) \/ Stop(p, n)
Spec == Init /\ [][Next]_vars
Times(p, i) == Cardinality({k \in DOMAIN files : i \in files[k].part[p]})
AtMostOnce == \A p \in Procs : \A i \in DOMAIN es[p] : Times(p, i) <= 1
EndedOnly == \A p \in Procs : \A i \in DOMAIN es[p] : Times(p, i) = 1 => es[p][i].t # Open
SameNumber == \A k \in DOMAIN files : files[k].k = {k}
\* after a file, everything that had ended is in one
Complete == \A p \in Procs : at[p] = "back" => \A i \in DOMAIN es[p] : es[p][i].t # Open => Times(p, i) = 1
Sym == Permutations(Names)
==============================================================================
