------------------------------ MODULE TrFiles -------------------------------
(* Recorded histories of writing, damaging, removing and reading files.                    *)
EXTENDS Files, TraceBase
VARIABLES c, fs
tvars == <<l, c, fs>>
F(n) == IF n \in DOMAIN fs THEN fs[n] ELSE NoFile
Put(n, f) == fs' = (n :> f) @@ fs
TInit == l = 1 /\ c = [np |-> 0] /\ fs = [x \in {} |-> 0]
TCase == Is("case") /\ c' = Ev /\ fs' = [x \in {} |-> 0]
Lens(v) == [r \in DOMAIN v |-> Len(v[r])]
AllDone == Ev.res = c.len
Failed == \E r \in DOMAIN c.len : Ev.res[r] # c.len[r]
TWrite ==
  /\ Is("write") /\ Lens(Ev.v) = c.len /\ c' = c
  /\ IF Ev.z THEN Put(Ev.f, [k |-> "z", d |-> Ev.v]) /\ \A r \in DOMAIN Ev.res : Ev.res[r] > 0
     ELSE /\ AllDone
          /\ LET new == Flat(Ev.v)
                 old == F(Ev.f)
             IN IF Ev.rep \/ old.k \in {"none", "raw"}
                THEN /\ Ev.file = (IF Ev.rep THEN new ELSE Over(old.d, new))
                     /\ Put(Ev.f, [k |-> "raw", d |-> Ev.file])
                ELSE /\ SubSeq(Ev.file, 1, Len(new)) = new
                     /\ Put(Ev.f, [k |-> IF Len(Ev.file) = Len(new) THEN "raw" ELSE "bad", d |-> new])
TRemove == Is("remove") /\ Put(Ev.f, NoFile) /\ c' = c
TDamage == Is("damage") /\ Ev.there = (F(Ev.f).k # "none") /\ (IF Ev.there THEN Put(Ev.f, [k |-> "bad", d |-> <<>>]) ELSE fs' = fs) /\ c' = c
TRead ==
  /\ Is("read") /\ UNCHANGED <<c, fs>>
  /\ IF Fits(F(Ev.f), Ev.z, c.len) THEN AllDone /\ Ev.v = Seen(F(Ev.f), Ev.z, c.len) ELSE Failed
TReduce ==
  /\ Is("reduce") /\ UNCHANGED <<c, fs>>
  /\ IF Fits(F(Ev.f), Ev.z, c.len)
     THEN AllDone /\ LET s == Seen(F(Ev.f), Ev.z, c.len) IN Ev.v = [r \in DOMAIN s |-> Reduced(Ev.fn, Ev.in[r], s[r])]
     ELSE Failed
TMulti ==
  /\ Is("multi") /\ UNCHANGED <<c, fs>>
  /\ IF Fits(F(Ev.f), FALSE, c.len) /\ Fits(F(Ev.f2), FALSE, c.len)
     THEN AllDone /\ LET s == Seen(F(Ev.f), FALSE, c.len)
                         t == Seen(F(Ev.f2), FALSE, c.len)
                     IN Ev.v = [r \in DOMAIN s |-> [i \in DOMAIN s[r] |-> s[r][i] + 2 * Ev.in[r][i] + 3 * t[r][i]]]
     ELSE Failed
\* one file per part
TWriteP ==
  /\ Is("writep") /\ Lens(Ev.v) = c.len /\ AllDone /\ c' = c
  /\ Len(Ev.file) = c.parts /\ \A p \in 0..(c.parts - 1) : Ev.file[p + 1] = Flat(PartLists(Ev.v, c.parts, p))
  /\ Put(Ev.f, [k |-> "parts", d |-> Ev.v])
TReadP == /\ Is("readp") /\ AllDone /\ Ev.v = F(Ev.f).d /\ \A r \in DOMAIN c.len : Ev.part[r] = PartOf(r, c.np, c.parts)
          /\ UNCHANGED <<c, fs>>
TReduceP == /\ Is("reducep") /\ AllDone /\ \A r \in DOMAIN c.len : Ev.part[r] = PartOf(r, c.np, c.parts)
            /\ Ev.v = [r \in DOMAIN c.len |-> Reduced("plus", Ev.in[r], F(Ev.f).d[r])] /\ UNCHANGED <<c, fs>>
\* one file per process
TChunked == Is("chunked") /\ Ev.file = Ev.v /\ Ev.got = Ev.v /\ UNCHANGED <<c, fs>>
\* large files: compared by the harness
TBig == /\ Is("bigio") /\ (Ev.z = 0 => Ev.wres = Ev.n) /\ Ev.rres = Ev.n /\ Ev.ares = Ev.n
        /\ \A r \in DOMAIN Ev.n : Ev.same[r] = 1 /\ Ev.twice[r] = 1
        /\ UNCHANGED <<c, fs>>
TEnd == Is("end") /\ UNCHANGED <<c, fs>>
TNext == TCase \/ TWrite \/ TRemove \/ TDamage \/ TRead \/ TReduce \/ TMulti \/ TWriteP \/ TReadP \/ TReduceP \/ TChunked \/ TBig \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
