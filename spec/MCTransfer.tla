----------------------------- MODULE MCTransfer -----------------------------
(* A manager sends tasks and parameters to the first process of each group, which passes    *)
(* them on to its group; all interleavings.                                                 *)
EXTENDS Transfer
CONSTANTS Groups, Procs, Msgs
Kinds == {"task", "params"}
Manager == 0
Master(g) == <<g, 1>>
Everyone == (1..Groups) \X (1..Procs)
VARIABLES ch, sent, got, tasks, params
vars == <<ch, sent, got, tasks, params>>
Key(g, k) == <<Manager, Master(g), k>>
\* the signal that announces a message travels on a channel of its own
Sig(g) == <<Manager, Master(g), "signal">>
Init == ch = NoChan /\ sent = [g \in 1..Groups |-> <<>>] /\ got = [p \in Everyone |-> <<>>]
        /\ tasks = [p \in Everyone |-> {}] /\ params = [p \in Everyone |-> 0]
Count == LET RECURSIVE S(_)
             S(G) == IF G = {} THEN 0 ELSE LET g == CHOOSE x \in G : TRUE IN Len(sent[g]) + S(G \ {g})
         IN S(1..Groups)
\* a task goes to one group; each task has a number of its own
SendTask == /\ Count < Msgs
            /\ \E g \in 1..Groups : LET x == <<"task", Count + 1>> IN
                 /\ ch' = Put(Put(ch, Sig(g), "task"), Key(g, "task"), x) /\ sent' = [sent EXCEPT ![g] = Append(@, x)]
            /\ UNCHANGED <<got, tasks, params>>
\* parameters go to all groups
RECURSIVE PutAll(_, _, _)
PutAll(c, G, x) == IF G = {} THEN c ELSE LET g == CHOOSE y \in G : TRUE IN PutAll(Put(Put(c, Sig(g), "params"), Key(g, "params"), x), G \ {g}, x)
SendParams == /\ Count < Msgs
              /\ LET x == <<"params", Count + 1>> IN ch' = PutAll(ch, 1..Groups, x) /\ sent' = [g \in 1..Groups |-> Append(sent[g], x)]
              /\ UNCHANGED <<got, tasks, params>>
\* the first process of a group reads the signal, then the message, and broadcasts it
Pass == \E g \in 1..Groups :
          /\ In(ch, Sig(g)) # <<>>
          /\ LET k == Key(g, Head(ch[Sig(g)])) IN
             /\ In(ch, k) # <<>>
             /\ LET x == Head(ch[k]) IN
                /\ got' = [p \in Everyone |-> IF p[1] = g THEN Append(got[p], x) ELSE got[p]]
                /\ tasks' = [p \in Everyone |-> IF p[1] = g /\ x[1] = "task" THEN tasks[p] \cup {x[2]} ELSE tasks[p]]
                /\ params' = [p \in Everyone |-> IF p[1] = g /\ x[1] = "params" THEN x[2] ELSE params[p]]
             /\ ch' = Take(Take(ch, Sig(g)), k)
          /\ UNCHANGED sent
Next == SendTask \/ SendParams \/ Pass
Spec == Init /\ [][Next]_vars /\ WF_vars(Pass)
\* ---------------------------------------------------------------- properties
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InOrder == \A p \in Everyone : IsPrefixOf(got[p], sent[p[1]])
Alike == \A p, q \in Everyone : p[1] = q[1] => got[p] = got[q] /\ tasks[p] = tasks[q] /\ params[p] = params[q]
OneOwner == \A p, q \in Everyone : p[1] # q[1] => tasks[p] \cap tasks[q] = {}
Final == Idle(ch) => \A p \in Everyone : got[p] = sent[p[1]] /\ (\A q \in Everyone : params[p] = params[q])
Arrives == <>[]Idle(ch)
=============================================================================
