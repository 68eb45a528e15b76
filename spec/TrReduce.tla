------------------------------ MODULE TrReduce ------------------------------
(* Recorded reductions between process groups. Lists over processes are indexed by world   *)
(* rank + 1 = group * np + position + 1.                                                   *)
EXTENDS Reduce, TraceBase
VARIABLES c
tvars == <<l, c>>
TInit == l = 1 /\ c = [ng |-> 0]
At(x, p) == [g \in 1..c.ng |-> x[(g - 1) * c.np + p]]      \* what the groups' processes at position p recorded
Pos == 1..c.np
TCase == Is("case") /\ c' = [ng |-> Ev.ng, np |-> Ev.np, v |-> Ev.variant, sz |-> Ev.sz]
SetOf(q) == {q[i] : i \in DOMAIN q}
Inc(q) == {q[i] + 1 : i \in DOMAIN q}
Sz(p) == At(c.sz, p)
Ag(p) == Agreed(c.v, Sz(p))
\* index of the communicator with members H in a list, or 0
Where(cm, H) == IF \E i \in DOMAIN cm : Inc(cm[i][1]) = H THEN CHOOSE i \in DOMAIN cm : Inc(cm[i][1]) = H ELSE 0
TAgree ==
  /\ Is("agree") /\ UNCHANGED c
  /\ \A p \in Pos :
       LET size == Sz(p)
           cm == At(Ev.cm, p)
       IN /\ At(Ev.sz, p) = Agreed(c.v, size)
          /\ \A g \in 1..c.ng :
               /\ {<<Inc(cm[g][i][1]), Inc(cm[g][i][2])>> : i \in DOMAIN cm[g]} = CommsOf(c.v, size, g)
               /\ Len(cm[g]) = Cardinality(CommsOf(c.v, size, g))
               /\ \A i \in DOMAIN cm[g] : Len(cm[g][i][2]) = Cardinality(Inc(cm[g][i][2])) /\ Len(cm[g][i][1]) = Cardinality(Inc(cm[g][i][1]))
               \* same content in the same order for all members, and the same order of communicators
               /\ \A h \in 1..c.ng : \A i \in DOMAIN cm[g] :
                    LET H == Inc(cm[g][i][1]) IN h \in H =>
                      LET k == Where(cm[h], H) IN
                      /\ k > 0 /\ cm[h][k] = cm[g][i]
                      /\ \A j \in DOMAIN cm[g] : LET m == Where(cm[h], Inc(cm[g][j][1])) IN (j > i /\ m > 0) => m > k
Data(size, s, x) == IF size[s] = 0 THEN <<>> ELSE <<x, size[s]>>
TReduce ==
  /\ Is("reduce") /\ UNCHANGED c
  /\ \A p \in Pos :
       LET size == Sz(p)
           a == Ag(p)
           b == At(Ev.b, p)
           d == At(Ev.d, p)
           res(g, s) == IF size[g][s] > 0 \/ s \in Summed(c.v, size) THEN Result(c.v, size, b, g, s) ELSE 0
       IN \A g \in 1..c.ng : \A s \in Subspaces(size) :
            \/ Ev.to # -1 /\ Ev.to # g - 1 /\ Len(d[g][s]) = (IF a[g][s] = 0 THEN 0 ELSE 2)
            \/ d[g][s] = Data(a[g], s, res(g, s))
TBcast ==
  /\ Is("bcast") /\ UNCHANGED c
  /\ \A p \in Pos :
       LET size == Sz(p)
           a == Ag(p)
           b == At(Ev.b, p)
           d == At(Ev.d, p)
       IN \A g \in 1..c.ng : \A s \in Subspaces(size) :
            d[g][s] = Data(a[g], s, IF s \in Summed(c.v, size) THEN b[Ev.root + 1][s] ELSE b[g][s])
\* chunks of the communicated (out) or remaining (in) subspaces
TChunks ==
  /\ Is("chunks") /\ UNCHANGED c
  /\ \A p \in Pos :
       LET size == Sz(p)
           a == Ag(p)
           of == At(Ev.of, p)
           ch == At(Ev.ch, p)
       IN \A g \in 1..c.ng :
            LET S == IF Ev.w = "out" THEN Shared(size) ELSE {s \in Subspaces(size) : size[g][s] > 0} \ Shared(size)
                C == [k \in DOMAIN ch[g] |-> [i \in DOMAIN ch[g][k] |-> ch[g][k][i] + 1]]
            IN /\ Inc(of[g]) = S /\ Len(of[g]) = Cardinality(S)
               /\ Packing(a[g], [i \in DOMAIN of[g] |-> of[g][i] + 1], Ev.lim, C)
               /\ Ev.w = "out" => \A h \in 1..c.ng : ch[h] = ch[g]
\* everything the chunks brought together: each subspace exactly once
Got(q, s) == {q[i] : i \in {i \in DOMAIN q : q[i][1] = s}}
TParts ==
  /\ Is("parts") /\ UNCHANGED c
  /\ \A p \in Pos :
       LET size == Sz(p)
           a == Ag(p)
           b == At(Ev.b, p)
           q == At(Ev.got, p)
       IN \A g \in 1..c.ng :
            /\ Len(q[g]) = Cardinality({s \in Subspaces(size) : a[g][s] > 0})
            /\ \A s \in Subspaces(size) : Got(q[g], s) = IF a[g][s] = 0 THEN {} ELSE {<<s, Result(c.v, size, b, g, s), a[g][s]>>}
TBParts ==
  /\ Is("bparts") /\ UNCHANGED c
  /\ \A p \in Pos :
       LET size == Sz(p)
           a == Ag(p)
           b == At(Ev.b, p)
           q == At(Ev.got, p)
       IN \A g \in 1..c.ng :
            /\ Len(q[g]) = Cardinality(Shared(size))
            /\ \A s \in Shared(size) : Got(q[g], s) = {<<s, b[Ev.root + 1][s], a[g][s]>>}
TEnd == Is("end") /\ UNCHANGED c
TNext == TCase \/ TAgree \/ TReduce \/ TBcast \/ TChunks \/ TParts \/ TBParts \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
