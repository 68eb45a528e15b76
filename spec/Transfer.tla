------------------------------ MODULE Transfer ------------------------------
(* Objects travelling between processes: ordered channels per sender, receiver and kind,    *)
(* and broadcasts; what arrives is what was sent.                                           *)
EXTENDS Integers, Sequences, FiniteSets
\* channels: function from <<sender, receiver, kind>> to the sequence of contents under way
NoChan == [k \in {} |-> <<>>]
In(ch, k) == IF k \in DOMAIN ch THEN ch[k] ELSE <<>>
Put(ch, k, x) == [j \in DOMAIN ch \cup {k} |-> IF j = k THEN Append(In(ch, k), x) ELSE ch[j]]
Take(ch, k) == [ch EXCEPT ![k] = Tail(@)]
Idle(ch) == \A k \in DOMAIN ch : ch[k] = <<>>
\* a broadcast: everybody ends up with the content of the root
SameEverywhere(x, r) == \A p \in DOMAIN r : r[p] = x
(* manager to groups: x parameters, t contents of the tasks by number, own[g] the tasks the  *)
(* manager believes group g has, w[p] what process p of the groups received: g its group,    *)
(* p the parameters it was sent one after the other, t its tasks                             *)
Delivered(n, x, t, own, w) ==
  /\ \A p \in DOMAIN w :
       /\ Len(w[p].p) = n /\ \A i \in 1..n : w[p].p[i] = x
       /\ w[p].g \in DOMAIN own
       /\ w[p].t = [i \in DOMAIN own[w[p].g] |-> t[own[w[p].g][i]]]
  /\ \A k \in DOMAIN t : Cardinality({<<g, i>> \in UNION {{<<h, j>> : j \in DOMAIN own[h]} : h \in DOMAIN own} : own[g][i] = k}) = 1
=============================================================================
