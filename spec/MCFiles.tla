------------------------------ MODULE MCFiles -------------------------------
(* Processes write their values into one file, in any order and value by value, close it   *)
(* together, and read it back in collective rounds of at most chunk values, adding what    *)
(* they read to their memory. All lengths, chunk sizes and interleavings.                  *)
EXTENDS Files, TLC
CONSTANTS NP, MaxLen, MaxChunk
VARIABLES len, chunk, old, file, pos, pc, mem, round, at
vars == <<len, chunk, old, file, pos, pc, mem, round, at>>
P == 1..NP
Val(r, i) == 10 * r + i
Mine(r) == [i \in 1..len[r] |-> Val(r, i)]
Init ==
  /\ len \in [P -> 0..MaxLen] /\ chunk \in 1..MaxChunk
  /\ old \in {<<>>, <<7>>, [i \in 1..(NP * MaxLen) |-> 7]}
  /\ file = [i \in 1..Total(len) |-> 0] /\ pos = [r \in P |-> 0] /\ pc = [r \in P |-> "write"]
  /\ mem = [r \in P |-> [i \in 1..len[r] |-> i]] /\ round = [r \in P |-> 0] /\ at = "write"
Write(r) ==
  /\ pc[r] = "write" /\ pos[r] < len[r]
  /\ file' = [file EXCEPT ![TotalTo(len, r - 1) + pos[r] + 1] = Val(r, pos[r] + 1)] /\ pos' = [pos EXCEPT ![r] = @ + 1]
  /\ UNCHANGED <<len, chunk, old, pc, mem, round, at>>
EndWrite(r) == pc[r] = "write" /\ pos[r] = len[r] /\ pc' = [pc EXCEPT ![r] = "close"] /\ UNCHANGED <<len, chunk, old, file, pos, mem, round, at>>
Close == /\ at = "write" /\ \A r \in P : pc[r] = "close"
         /\ at' = "read" /\ pos' = [r \in P |-> 0] /\ pc' = [r \in P |-> "read"] /\ UNCHANGED <<len, chunk, old, file, mem, round>>
Rounds == LET n(r) == (len[r] + chunk - 1) \div chunk IN CHOOSE m \in 0..MaxLen : (\E r \in P : n(r) = m) /\ \A r \in P : n(r) <= m
Left(r) == IF len[r] - pos[r] < chunk THEN len[r] - pos[r] ELSE chunk
\* a process enters a collective read; the read happens when all did
Enter(r) == /\ pc[r] = "read" /\ round[r] < Rounds /\ pc' = [pc EXCEPT ![r] = "in"] /\ UNCHANGED <<len, chunk, old, file, pos, mem, round, at>>
Read == /\ \A r \in P : pc[r] = "in"
        /\ mem' = [r \in P |-> [i \in DOMAIN mem[r] |-> IF i > pos[r] /\ i <= pos[r] + Left(r) THEN mem[r][i] + Slice(file, len, r)[i] ELSE mem[r][i]]]
        /\ pos' = [r \in P |-> pos[r] + Left(r)] /\ round' = [r \in P |-> round[r] + 1] /\ pc' = [r \in P |-> "read"]
        /\ UNCHANGED <<len, chunk, old, file, at>>
Leave(r) == /\ pc[r] = "read" /\ round[r] = Rounds /\ pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<len, chunk, old, file, pos, mem, round, at>>
Over1 == \A r \in P : pc[r] = "done"
Next == Close \/ Read \/ (\E r \in P : Write(r) \/ EndWrite(r) \/ Enter(r) \/ Leave(r)) \/ (Over1 /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Added == \A r \in P : pc[r] = "done" => mem[r] = [i \in 1..len[r] |-> i + Val(r, i)]
Complete == at = "read" => file = Flat([r \in P |-> Mine(r)]) /\ Slices(file, len) = [r \in P |-> Mine(r)]
OldEnd == LET f == Over(old, file) IN SubSeq(f, 1, Len(file)) = file /\ (Len(f) = Total(len) <=> Len(old) <= Total(len))
\* parts: every process is in exactly one, and together they hold everything in order
Parts == \A p \in {q \in 1..NP : NP % q = 0} :
           LET v == [r \in P |-> Mine(r)]
           IN /\ Flat([q \in 1..p |-> Flat(PartLists(v, p, q - 1))]) = Flat(v)
              /\ \A r \in P : PartOf(r, NP, p) \in 0..(p - 1)
Progress == <>Over1
=============================================================================
