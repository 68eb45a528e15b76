------------------------------ MODULE MCBroker ------------------------------
(* Two systems run the same list of common operations, each at its own pace, and the broker *)
(* serves whichever asks first. All lists up to MaxOps, all interleavings. Data are sets of *)
(* contributions <<system, operation, block>>; adding is union of disjoint sets.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps, MaxBlocks
VARIABLES ops, up, dn, bpc, ini, alive, at, pc, role, blk, held, got
\* up/dn: messages to and from the broker; at/pc/role/blk: progress of the systems; held: data after the operation; got: data received
vars == <<ops, up, dn, bpc, ini, alive, at, pc, role, blk, held, got>>
Sys == {1, 2}
Other(s) == 3 - s
Kinds == [k : {"combine"}, b : 1..MaxBlocks] \cup [k : {"sizes", "both", "one", "file"}, b : {1}]
Mine(s, o, b) == {<<s, o, b>>}
Two == <<"", "">>
Init == /\ \E n \in 0..MaxOps : ops \in [1..n -> Kinds]
        /\ up = <<<<>>, <<>>>> /\ dn = <<<<>>, <<>>>> /\ bpc = "poll" /\ ini = 0 /\ alive = Sys
        /\ at = <<0, 0>> /\ pc = <<"idle", "idle">> /\ role = Two /\ blk = <<0, 0>>
        /\ held = [s \in Sys |-> [o \in 1..Len(ops) |-> <<>>]] /\ got = held
\* ------------------------------------------------------------- systems
K(s) == ops[at[s]]
Push(s, m) == up' = [up EXCEPT ![s] = Append(@, m)]
Ask(s) == /\ pc[s] = "idle" /\ at[s] < Len(ops) /\ at' = [at EXCEPT ![s] = @ + 1] /\ Push(s, [m |-> "ask", k |-> ops[at[s] + 1].k])
          /\ pc' = [pc EXCEPT ![s] = "asked"] /\ UNCHANGED <<ops, dn, bpc, ini, alive, role, blk, held, got>>
Finish(s) == /\ pc[s] = "idle" /\ at[s] = Len(ops) /\ Push(s, [m |-> "fin"]) /\ pc' = [pc EXCEPT ![s] = "gone"]
             /\ UNCHANGED <<ops, dn, bpc, ini, alive, at, role, blk, held, got>>
Instruct(s) == /\ pc[s] = "asked" /\ dn[s] # <<>> /\ role' = [role EXCEPT ![s] = Head(dn[s]).m] /\ dn' = [dn EXCEPT ![s] = Tail(@)]
               /\ blk' = [blk EXCEPT ![s] = 1]
               /\ pc' = [pc EXCEPT ![s] = CASE Head(dn[s]).m = "write_ok" -> "ready" [] Head(dn[s]).m = "send_first" -> "send" [] OTHER -> "recv"]
               /\ UNCHANGED <<ops, up, bpc, ini, alive, at, held, got>>
\* the last transfer of the block is done
After(s, sent) ==
  IF K(s).k = "combine" /\ blk[s] < K(s).b /\ ((role[s] = "send_first") = ~sent) THEN IF sent THEN "recv" ELSE "send"
  ELSE IF K(s).k = "one" THEN "ready"
  ELSE IF (role[s] = "send_first") = sent THEN IF sent THEN "recv" ELSE "send" ELSE "ready"
Step1(s, sent) == /\ pc' = [pc EXCEPT ![s] = After(s, sent)]
                  /\ blk' = [blk EXCEPT ![s] = IF K(s).k = "combine" /\ @ < K(s).b /\ ((role[s] = "send_first") = ~sent) THEN @ + 1 ELSE @]
Data(s) == IF K(s).k = "combine" /\ role[s] = "recv_first" THEN held[s][at[s]][blk[s]] ELSE Mine(s, at[s], blk[s])
SendD(s) == /\ pc[s] = "send" /\ Push(s, [m |-> "data", d |-> Data(s)]) /\ Step1(s, TRUE)
            /\ UNCHANGED <<ops, dn, bpc, ini, alive, at, role, held, got>>
RecvD(s) == /\ pc[s] = "recv" /\ dn[s] # <<>>
            /\ LET d == Head(dn[s]).d
               IN /\ held' = [held EXCEPT ![s][at[s]] = Append(@, IF K(s).k = "combine" /\ role[s] = "recv_first" THEN d \cup Mine(s, at[s], blk[s]) ELSE d)]
                  /\ got' = [got EXCEPT ![s][at[s]] = Append(@, d)]
            /\ dn' = [dn EXCEPT ![s] = Tail(@)] /\ Step1(s, FALSE) /\ UNCHANGED <<ops, up, bpc, ini, alive, at, role>>
Ready(s) == /\ pc[s] = "ready" /\ Push(s, [m |-> "ready"]) /\ pc' = [pc EXCEPT ![s] = "idle"] /\ role' = [role EXCEPT ![s] = ""]
            /\ UNCHANGED <<ops, dn, bpc, ini, alive, at, blk, held, got>>
\* ------------------------------------------------------------- broker
Msg(s) == Head(up[s])
Tell(s, m) == dn' = [dn EXCEPT ![s] = Append(@, m)]
Poll(s) == /\ bpc = "poll" /\ s \in alive /\ up[s] # <<>> /\ up' = [up EXCEPT ![s] = Tail(@)]
           /\ IF Msg(s).m = "fin" THEN alive' = alive \ {s} /\ UNCHANGED <<dn, bpc, ini>>
              ELSE /\ Tell(s, [m |-> IF Msg(s).k = "file" THEN "write_ok" ELSE "send_first"])
                   /\ ini' = s /\ bpc' = "other" /\ UNCHANGED alive
           /\ UNCHANGED <<ops, at, pc, role, blk, held, got>>
BOther == LET s == Other(ini)
          IN /\ ini # 0 /\ bpc = "other" /\ up[s] # <<>> /\ up' = [up EXCEPT ![s] = Tail(@)]
             /\ Tell(s, [m |-> IF Msg(s).k = "file" THEN "write_ok" ELSE "recv_first"])
             /\ bpc' = (IF Msg(s).k = "file" THEN "iready" ELSE "i") /\ UNCHANGED <<ops, ini, alive, at, pc, role, blk, held, got>>
BI == /\ ini # 0 /\ bpc = "i" /\ up[ini] # <<>> /\ up' = [up EXCEPT ![ini] = Tail(@)]
      /\ IF Msg(ini).m = "data" THEN Tell(Other(ini), Msg(ini)) /\ bpc' = "o" ELSE bpc' = "oready" /\ UNCHANGED dn
      /\ UNCHANGED <<ops, ini, alive, at, pc, role, blk, held, got>>
BO == LET s == Other(ini)
      IN /\ ini # 0 /\ bpc = "o" /\ up[s] # <<>> /\ up' = [up EXCEPT ![s] = Tail(@)]
         /\ IF Msg(s).m = "data" THEN /\ Tell(ini, Msg(s)) /\ bpc' = (IF ops[at[ini]].k = "combine" THEN "i" ELSE "iready")
            ELSE bpc' = "ilast" /\ UNCHANGED dn
         /\ UNCHANGED <<ops, ini, alive, at, pc, role, blk, held, got>>
BReady == ini # 0 /\ \E p \in {<<"iready", ini, "oready">>, <<"oready", Other(ini), "poll">>, <<"ilast", ini, "poll">>} :
            /\ bpc = p[1] /\ up[p[2]] # <<>> /\ Msg(p[2]).m = "ready" /\ up' = [up EXCEPT ![p[2]] = Tail(@)] /\ bpc' = p[3]
            /\ UNCHANGED <<ops, dn, ini, alive, at, pc, role, blk, held, got>>
BEnd == bpc = "poll" /\ alive = {} /\ bpc' = "ended" /\ UNCHANGED <<ops, up, dn, ini, alive, at, pc, role, blk, held, got>>
BrokerNext == (\E s \in Sys : Poll(s)) \/ BOther \/ BI \/ BO \/ BReady \/ BEnd
SysNext(s) == Ask(s) \/ Finish(s) \/ Instruct(s) \/ SendD(s) \/ RecvD(s) \/ Ready(s)
Next == BrokerNext \/ (\E s \in Sys : SysNext(s)) \/ (bpc = "ended" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(BrokerNext) /\ \A s \in Sys : WF_vars(SysNext(s))
\* ------------------------------------------------------------- properties
OneSendsFirst == at[1] = at[2] => ~(role[1] = "send_first" /\ role[2] = "send_first") /\ ~(role[1] = "recv_first" /\ role[2] = "recv_first")
WaitForOther == \A s \in Sys : role[s] = "recv_first" => at[Other(s)] >= at[s]
\* what arrived is the other one's data of the same operation and block, or, for a sum, both
Relayed == \A s \in Sys, o \in 1..Len(ops) : \A b \in 1..Len(got[s][o]) :
             got[s][o][b] \in {Mine(Other(s), o, b), Mine(1, o, b) \cup Mine(2, o, b)} /\ (ops[o].k # "combine" => got[s][o][b] = Mine(Other(s), o, b))
SameSum == bpc = "ended" => \A o \in 1..Len(ops) : ops[o].k = "combine" =>
             held[1][o] = held[2][o] /\ Len(held[1][o]) = ops[o].b /\ \A b \in 1..ops[o].b : held[1][o][b] = Mine(1, o, b) \cup Mine(2, o, b)
Quiet == bpc = "ended" => up = <<<<>>, <<>>>> /\ dn = <<<<>>, <<>>>> /\ pc = <<"gone", "gone">>
Ends == <>(bpc = "ended")
=============================================================================
