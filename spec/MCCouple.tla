------------------------------ MODULE MCCouple ------------------------------
(* Systems exchange their sparse grids through files and tokens: each writes its sizes and *)
(* waits for those of the others, then in every step writes its sums of the exchanged      *)
(* subspaces piece by piece, sets a token, waits for the tokens of the others, reads their *)
(* files in any order, removes what it read, goes on. File names repeat after NNames steps *)
(* (one reader per file). All subspace sets and all interleavings of the systems.          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NS, Subs, NSteps, NNames, Parts
VARIABLES have, pc, step, sizes, sztok, exch, file, tok, got, sum
vars == <<have, pc, step, sizes, sztok, exch, file, tok, got, sum>>
Sys == 1..NS
Pairs == {p \in Sys \X Sys : p[1] # p[2]}   \* writer, reader
Names == 0..NNames - 1
None == [step |-> 0, parts |-> 0, d |-> {}]
Init ==
  /\ have \in [Sys -> SUBSET Subs]
  /\ pc = [y \in Sys |-> "size"] /\ step = [y \in Sys |-> 1]
  /\ sizes = [y \in Sys |-> {}] /\ sztok = [y \in Sys |-> FALSE] /\ exch = [y \in Sys |-> {}]
  /\ file = [p \in Pairs |-> [n \in Names |-> None]] /\ tok = [p \in Pairs |-> [n \in Names |-> FALSE]]
  /\ got = [y \in Sys |-> {}] /\ sum = [y \in Sys |-> [s \in Subs |-> {}]]
WriteSizes(y) == /\ pc[y] = "size" /\ sizes' = [sizes EXCEPT ![y] = have[y]] /\ pc' = [pc EXCEPT ![y] = "sizetok"]
                 /\ UNCHANGED <<have, step, sztok, exch, file, tok, got, sum>>
SizeTok(y) == /\ pc[y] = "sizetok" /\ sztok' = [sztok EXCEPT ![y] = TRUE] /\ pc' = [pc EXCEPT ![y] = "sizewait"]
              /\ UNCHANGED <<have, step, sizes, exch, file, tok, got, sum>>
ReadSizes(y) == /\ pc[y] = "sizewait" /\ \A z \in Sys : sztok[z]
                /\ exch' = [exch EXCEPT ![y] = {s \in Subs : Cardinality({z \in Sys \ {y} : s \in sizes[z]} \cup (IF s \in have[y] THEN {y} ELSE {})) > 1}]
                /\ pc' = [pc EXCEPT ![y] = "run"] /\ UNCHANGED <<have, step, sizes, sztok, file, tok, got, sum>>
Name(y) == step[y] % NNames
\* the own sum of a step is named (system, step)
Run(y) == /\ pc[y] = "run"
          /\ sum' = [sum EXCEPT ![y] = [s \in Subs |-> IF s \in have[y] THEN {<<y, step[y]>>} ELSE {}]]
          /\ got' = [got EXCEPT ![y] = {}]
          /\ file' = [p \in Pairs |-> IF p[1] = y THEN [file[p] EXCEPT ![Name(y)] = [step |-> step[y], parts |-> 0, d |-> {}]] ELSE file[p]]
          /\ pc' = [pc EXCEPT ![y] = "write"] /\ UNCHANGED <<have, step, sizes, sztok, exch, tok>>
Write(y) == /\ pc[y] = "write"
            /\ \E k \in 0..Parts - 1 : (\A p \in Pairs : p[1] = y => file[p][Name(y)].parts = k)
                 /\ file' = [p \in Pairs |-> IF p[1] = y THEN [file[p] EXCEPT ![Name(y)].parts = k + 1, ![Name(y)].d = {<<s, sum[y][s]>> : s \in exch[y]}] ELSE file[p]]
                 /\ pc' = [pc EXCEPT ![y] = IF k + 1 = Parts THEN "tok" ELSE "write"]
            /\ UNCHANGED <<have, step, sizes, sztok, exch, tok, got, sum>>
Tok(y) == /\ pc[y] = "tok" /\ tok' = [p \in Pairs |-> IF p[1] = y THEN [tok[p] EXCEPT ![Name(y)] = TRUE] ELSE tok[p]]
          /\ pc' = [pc EXCEPT ![y] = "read"] /\ UNCHANGED <<have, step, sizes, sztok, exch, file, got, sum>>
Read(y, z) == /\ pc[y] = "read" /\ z \notin got[y] /\ tok[<<z, y>>][Name(y)]
              /\ sum' = [sum EXCEPT ![y] = [s \in Subs |-> @[s] \cup UNION {e[2] : e \in {e \in file[<<z, y>>][Name(y)].d : e[1] = s}}]]
              /\ got' = [got EXCEPT ![y] = @ \cup {z}]
              /\ pc' = [pc EXCEPT ![y] = IF got'[y] = Sys \ {y} THEN "remove" ELSE "read"]
              /\ UNCHANGED <<have, step, sizes, sztok, exch, file, tok>>
RemoveTok(y) == /\ pc[y] = "remove" /\ tok' = [p \in Pairs |-> IF p[2] = y THEN [tok[p] EXCEPT ![Name(y)] = FALSE] ELSE tok[p]]
                /\ pc' = [pc EXCEPT ![y] = "remove2"] /\ UNCHANGED <<have, step, sizes, sztok, exch, file, got, sum>>
RemoveFile(y) == /\ pc[y] = "remove2" /\ file' = [p \in Pairs |-> IF p[2] = y THEN [file[p] EXCEPT ![Name(y)] = None] ELSE file[p]]
                 /\ pc' = [pc EXCEPT ![y] = IF step[y] = NSteps THEN "done" ELSE "run"]
                 /\ step' = [step EXCEPT ![y] = IF step[y] = NSteps THEN @ ELSE @ + 1]
                 /\ UNCHANGED <<have, sizes, sztok, exch, tok, got, sum>>
Done == \A y \in Sys : pc[y] = "done"
Next == (\E y \in Sys : WriteSizes(y) \/ SizeTok(y) \/ ReadSizes(y) \/ Run(y) \/ Write(y) \/ Tok(y) \/ RemoveTok(y) \/ RemoveFile(y) \/ (\E z \in Sys \ {y} : Read(y, z)))
        \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* all systems exchange the same subspaces: those at least two of them have
Shared == {s \in Subs : Cardinality({y \in Sys : s \in have[y]}) > 1}
Agree == \A y \in Sys : pc[y] \notin {"size", "sizetok", "sizewait"} => exch[y] = Shared
\* after a step every system has the sum of all that have the subspace, if it has it
Whole == \A y \in Sys : pc[y] \in {"remove", "remove2", "done"} =>
           \A s \in have[y] : sum[y][s] = {<<z, step[y]>> : z \in {x \in Sys : s \in have[x]}}
\* a token stands for a completely written file of a step
Complete == \A p \in Pairs, n \in Names : tok[p][n] => file[p][n].parts = Parts
\* nobody starts to write over something that was not read
Safe == \A p \in Pairs : pc[p[1]] = "write" => ~tok[p][Name(p[1])]
Clean == Done => \A p \in Pairs, n \in Names : ~tok[p][n] /\ file[p][n] = None
Progress == <>Done
=============================================================================
