------------------------------ MODULE TrSizes ------------------------------
(* Size files written by the tool, as the workers' sparse grids read them.                *)
EXTENDS Sparse, Scheme, Sizes, TraceBase
tvars == <<l>>
TInit == l = 1
Top(e) == [d \in DOMAIN e.lmax |-> Max2(e.lmin[d], e.lmax[d] - 1)]
TCase ==
  /\ Is("case")
  /\ LET e == Ev
         B == [d \in DOMAIN e.lmax |-> 1]
         dec == DefaultDec(e.lmax, B, e.P, FALSE)
         len == TLCEval([r \in DOMAIN e.coords |-> [k \in DOMAIN e.sg |-> Len(SubspaceOn(e.sg[k], e.lmax, B, dec, e.coords[r]))]])
     IN /\ {e.sg[k] : k \in DOMAIN e.sg} = TruncSet(e.lmin, Top(e))
        /\ \A i, j \in DOMAIN e.sg : e.sg[i] = e.sg[j] => i = j
        /\ Len(e.sys) = e.nsys
        \* the file of every system, as numbers in the file and as read by the workers
        /\ \A s \in DOMAIN e.sys :
             LET W == [r \in DOMAIN e.coords |-> [k \in DOMAIN e.sg |-> Entry(e.sys[s], e.sg[k], len[r][k])]]
             IN e.raw[s] = W /\ e.got[s] = W
        /\ IF e.nsys > 1
           THEN LET W == [r \in DOMAIN e.coords |-> [k \in DOMAIN e.sg |-> ConjointEntry(e.sys, e.sg[k], len[r][k])]]
                IN Len(e.raw) = e.nsys + 1 /\ e.raw[e.nsys + 1] = W /\ e.got[e.nsys + 1] = W
           ELSE Len(e.raw) = 1
TNext == TCase
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
