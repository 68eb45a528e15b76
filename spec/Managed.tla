------------------------------ MODULE Managed -------------------------------
(* Protocol between the manager and the process groups. The manager works through a script *)
(* of operations; every group takes signals from its queue in order, works (taking any time *)
(* relative to the others) and answers with a status message. A combination needs all       *)
(* groups at the same time.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Groups, Tasks, MaxOps
VARIABLES
  ops,     \* operations still to be started
  op,      \* operation the manager is in: [k, ...] or [k |-> "none"]
  todo,    \* tasks not given out yet
  busy,    \* groups the manager waits for (a status receive is posted)
  sig,     \* queue of signals to every group
  ans,     \* queue of status messages of every group
  act,     \* what the group is doing
  has,     \* tasks the group's processes hold
  list,    \* tasks the manager thinks the group has
  ran,     \* number of steps run per task
  at,      \* history: how often a task was run in the current step
  goal,    \* number of steps asked for
  comb,    \* number of combinations each group took part in
  gone     \* groups that left
vars == <<ops, op, todo, busy, sig, ans, act, has, list, ran, at, goal, comb, gone>>
None == [k |-> "none"]
Idle == [k |-> "idle"]
Init ==
  /\ ops = 0 /\ op = None /\ todo = Tasks /\ busy = {}
  /\ sig = [g \in Groups |-> <<>>] /\ ans = [g \in Groups |-> <<>>] /\ act = [g \in Groups |-> Idle]
  /\ has = [g \in Groups |-> {}] /\ list = [g \in Groups |-> {}]
  /\ ran = [t \in Tasks |-> 0] /\ at = [t \in Tasks |-> 0] /\ goal = 0 /\ comb = [g \in Groups |-> 0] /\ gone = {}
\* --------------------------------------------------------------- manager
Send(g, s) == sig' = [sig EXCEPT ![g] = Append(@, s)]
SendAll(s) == sig' = [g \in Groups |-> Append(sig[g], s)]
\* the status message of a group arrives at the receive posted for it
Receive(g) ==
  /\ g \in busy /\ ans[g] # <<>> /\ ans' = [ans EXCEPT ![g] = Tail(@)] /\ busy' = busy \ {g}
  /\ UNCHANGED <<ops, op, todo, sig, act, has, list, ran, at, goal, comb, gone>>
Free == busy = {}
Start(k, wait) == op = None /\ ops < MaxOps /\ ops' = ops + 1 /\ op' = [k |-> k] /\ (wait => Free)
RunFirst ==
  /\ ops = 0 /\ Start("runfirst", TRUE) /\ goal' = 1
  /\ UNCHANGED <<todo, busy, sig, ans, act, has, list, ran, at, comb, gone>>
\* first one task for every group, then the next task for any group that is free
Give(g, t) ==
  /\ op.k = "runfirst" /\ t \in todo /\ g \notin busy
  /\ (\E h \in Groups : list[h] = {}) => list[g] = {}
  /\ todo' = todo \ {t} /\ list' = [list EXCEPT ![g] = @ \cup {t}] /\ busy' = busy \cup {g} /\ Send(g, [k |-> "first", t |-> t])
  /\ UNCHANGED <<ops, op, ans, act, has, ran, at, goal, comb, gone>>
RunNext ==
  /\ ops > 0 /\ Start("runnext", TRUE) /\ goal' = goal + 1 /\ at' = [t \in Tasks |-> 0]
  /\ busy' = Groups /\ SendAll([k |-> "next"]) /\ UNCHANGED <<todo, ans, act, has, list, ran, comb, gone>>
Combine ==
  /\ ops > 0 /\ Start("combine", TRUE) /\ busy' = Groups /\ SendAll([k |-> "combine"])
  /\ UNCHANGED <<todo, ans, act, has, list, ran, at, goal, comb, gone>>
\* a query is answered before the status messages were taken; the next operation waits for them
Query ==
  /\ ops > 0 /\ Start("query", TRUE) /\ busy' = Groups /\ SendAll([k |-> "query"])
  /\ UNCHANGED <<todo, ans, act, has, list, ran, at, goal, comb, gone>>
Move(t, g, h) ==
  /\ ops > 0 /\ g # h /\ t \in list[g] /\ op = None /\ ops < MaxOps /\ ops' = ops + 1 /\ Free
  /\ op' = [k |-> "move", t |-> t, from |-> g, to |-> h, s |-> "out"]
  /\ busy' = {g} /\ Send(g, [k |-> "out", t |-> t]) /\ list' = [list EXCEPT ![g] = @ \ {t}]
  /\ UNCHANGED <<todo, ans, act, has, ran, at, goal, comb, gone>>
MoveIn ==
  /\ op.k = "move" /\ op.s = "out" /\ Free
  /\ op' = [op EXCEPT !.s = "in"] /\ busy' = {op.to} /\ Send(op.to, [k |-> "in", t |-> op.t]) /\ list' = [list EXCEPT ![op.to] = @ \cup {op.t}]
  /\ UNCHANGED <<ops, todo, ans, act, has, ran, at, goal, comb, gone>>
\* blocking operations return when every group answered, a query when all groups have worked on it
Return ==
  /\ op # None /\ op.k # "exit" /\ (op.k = "move" => op.s = "in") /\ todo = {}
  /\ IF op.k = "query" THEN \A g \in Groups : sig[g] = <<>> /\ act[g] = Idle ELSE Free
  /\ op' = None /\ UNCHANGED <<ops, todo, busy, sig, ans, act, has, list, ran, at, goal, comb, gone>>
Exit ==
  /\ op = None /\ ops > 0 /\ Free /\ op' = [k |-> "exit"] /\ SendAll([k |-> "exit"])
  /\ UNCHANGED <<ops, todo, busy, ans, act, has, list, ran, at, goal, comb, gone>>
\* --------------------------------------------------------------- groups
Take(g) ==
  /\ act[g] = Idle /\ sig[g] # <<>> /\ g \notin gone
  /\ LET s == Head(sig[g])
     IN /\ act' = [act EXCEPT ![g] = IF s.k = "next" THEN [k |-> "next", left |-> has[g]] ELSE s]
        /\ has' = CASE s.k \in {"first", "in"} -> [has EXCEPT ![g] = @ \cup {s.t}] [] s.k = "out" -> [has EXCEPT ![g] = @ \ {s.t}] [] OTHER -> has
  /\ sig' = [sig EXCEPT ![g] = Tail(@)]
  /\ UNCHANGED <<ops, op, todo, busy, ans, list, ran, at, goal, comb, gone>>
Work(t) == ran' = [ran EXCEPT ![t] = @ + 1] /\ at' = [at EXCEPT ![t] = @ + 1]
RunOne(g) ==
  /\ act[g].k = "first" \/ (act[g].k = "next" /\ act[g].left # {})
  /\ IF act[g].k = "first" THEN Work(act[g].t) /\ act' = [act EXCEPT ![g] = [k |-> "over"]]
     ELSE \E t \in act[g].left : Work(t) /\ act' = [act EXCEPT ![g].left = @ \ {t}]
  /\ UNCHANGED <<ops, op, todo, busy, sig, ans, has, list, goal, comb, gone>>
\* all groups meet in a combination
Meet ==
  /\ \A g \in Groups : act[g].k = "combine"
  /\ act' = [g \in Groups |-> [k |-> "over"]] /\ comb' = [g \in Groups |-> comb[g] + 1]
  /\ UNCHANGED <<ops, op, todo, busy, sig, ans, has, list, ran, at, goal, gone>>
Finish(g) ==
  /\ act[g].k \in {"over", "query", "out", "in"} \/ (act[g].k = "next" /\ act[g].left = {})
  /\ act' = [act EXCEPT ![g] = Idle] /\ ans' = [ans EXCEPT ![g] = Append(@, "wait")]
  /\ UNCHANGED <<ops, op, todo, busy, sig, has, list, ran, at, goal, comb, gone>>
Leave(g) ==
  /\ act[g].k = "exit" /\ act' = [act EXCEPT ![g] = Idle] /\ gone' = gone \cup {g}
  /\ UNCHANGED <<ops, op, todo, busy, sig, ans, has, list, ran, at, goal, comb>>
Over == op.k = "exit" /\ gone = Groups /\ UNCHANGED vars
GroupStep == \E g \in Groups : Receive(g) \/ Take(g) \/ RunOne(g) \/ Finish(g) \/ Leave(g)
GiveAny == \E g \in Groups, t \in Tasks : Give(g, t)
MoveAny == \E g, h \in Groups, t \in Tasks : Move(t, g, h)
Next == RunFirst \/ GiveAny \/ RunNext \/ Combine \/ Query \/ MoveAny \/ MoveIn \/ Return \/ Exit \/ GroupStep \/ Meet \/ Over
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* --------------------------------------------------------------- properties
\* no task is lost, doubled or run twice in a step
Holder(t) == {g \in Groups : t \in has[g]}
TaskOnce == \A t \in Tasks : Cardinality(Holder(t)) <= 1 /\ Cardinality({g \in Groups : t \in list[g]}) <= 1 /\ at[t] <= 1
\* between operations manager and groups agree, and every task was run once in every step
Settled == (op = None /\ ops > 0) => /\ \A t \in Tasks : ran[t] = goal /\ at[t] = 1 /\ Cardinality(Holder(t)) = 1
                                     /\ has = list /\ \A g \in Groups : sig[g] = <<>> /\ act[g] = Idle
\* nobody combines before its step is over, and all groups take part in the same combinations
CombineClean == \A g \in Groups : act[g].k = "combine" => \A t \in has[g] : ran[t] = goal
SameCombinations == \A g, h \in Groups : comb[g] = comb[h]
\* at most one status message is outstanding, so an old one is never taken for a new one
OneAnswer == \A g \in Groups : Len(ans[g]) <= 1 /\ (ans[g] # <<>> => g \in busy)
Progress == <>(op.k = "exit" /\ gone = Groups)
=============================================================================
