------------------------------ MODULE TrScheme ------------------------------
(* Recorded combination schemes and their distribution over groups and systems.           *)
EXTENDS Scheme, TraceBase
VARIABLES c, kind, S
tvars == <<l, c, kind, S>>
\* lists from the implementation: pairs <<level, coefficient>>
Pairs(lv, co) == {<<lv[i], co[i]>> : i \in DOMAIN lv}
Distinct(s) == Cardinality({s[i] : i \in DOMAIN s}) = Len(s)
SetOf(s) == {s[i] : i \in DOMAIN s}
TInit == l = 1 /\ c = [lmin |-> <<>>, lmax |-> <<>>] /\ kind = "none" /\ S = {}
TCase == Is("case") /\ c' = [lmin |-> Ev.lmin, lmax |-> Ev.lmax] /\ kind' = "none" /\ S' = {}
Index(k) == IF k = "class" THEN ClassSet(c.lmin, c.lmax) ELSE AdaptSet(c.lmin, c.lmax)
\* a scheme generator ran
TGen == /\ Is("gen")
        /\ kind' = Ev.kind
        /\ S' = SchemeOf(Index(Ev.kind))
        /\ Len(Ev.lv) = Len(Ev.co) /\ Distinct(Ev.lv) /\ Pairs(Ev.lv, Ev.co) = S'
        /\ CountsOnce(S')
        /\ UNCHANGED c
\* fault tolerant extension of the current scheme
TFt == /\ Is("ft")
       /\ LET eff == Cardinality(Refined(c.lmin, c.lmax))
              I == IF kind = "class" THEN ClassSet(c.lmin, c.lmax) ELSE {v \in TruncSet(c.lmin, c.lmax) : LeqV(c.lmin, v)}
              n == IF kind = "class" THEN SumSeq(ClassLow(c.lmin, c.lmax)) + ClassWidth(c.lmin, c.lmax) ELSE AdaptSum(c.lmin, c.lmax)
              X == IF eff = 0 THEN {} ELSE {<<v, 0>> : v \in ExtraGrids(I, n, eff)}
          IN /\ Len(Ev.lv) = Len(Ev.co) /\ Distinct(Ev.lv) /\ Pairs(Ev.lv, Ev.co) = S \cup X
       /\ UNCHANGED <<c, kind, S>>
\* downward closed set of the current scheme
TDown == Is("down") /\ Distinct(Ev.s) /\ SetOf(Ev.s) = DownOf(Levels(S)) /\ UNCHANGED <<c, kind, S>>
\* levels of the sparse grid
TTrunc == Is("trunc") /\ Distinct(Ev.s) /\ SetOf(Ev.s) = TruncSet(c.lmin, c.lmax) /\ UNCHANGED <<c, kind, S>>
\* enumerations of the subspaces below one grid
TBelow == Is("below") /\ Distinct(Ev.s) /\ SetOf(Ev.s) = Below(Ev.v) /\ Distinct(Ev.h) /\ SetOf(Ev.h) = Below(Ev.v)
          /\ Ev.n = Cardinality(Below(Ev.v)) /\ UNCHANGED <<c, kind, S>>
\* a scheme file with the given lines, read on every process
TFile == /\ Is("file")
         /\ \A r \in DOMAIN Ev.r : Ev.r[r] = [lv |-> Ev.lv, co |-> Ev.co, gr |-> Ev.gr]
         /\ UNCHANGED <<c, kind, S>>
\* numbers of points of a grid, of subspaces, of the sparse grid and of its parts per process
TDof == /\ Is("dof")
        /\ Ev.nodal = Prod(Extents(Ev.v, Ev.B)) /\ Ev.combi = Ev.nodal
        /\ Ev.hier = SubspacePoints(Ev.v, Ev.B)
        /\ Ev.sg = SumPoints(SetOf(Ev.s), [d \in DOMAIN Ev.v |-> 2])
        /\ UNCHANGED <<c, kind, S>>
TPart == /\ Is("part")
         /\ LET e == Ev
                B == [d \in DOMAIN e.R |-> 2]
                ext == Extents(e.R, B)
                P == [d \in DOMAIN e.dec |-> Len(e.dec[d])]
            IN /\ Len(e.n) = Prod(P)
               /\ \A p \in DOMAIN e.n :
                    LET k == VecIdx(p - 1, P)
                        lo == LowerOf(e.dec, k)
                        up == UpperOf(e.dec, ext, k)
                        cnt(v) == Prod([d \in DOMAIN v |-> Cardinality({i \in lo[d]..(up[d] - 1) : SubLevel1(i, e.R[d], 2) = v[d]})])
                        RECURSIVE Tot(_)
                        Tot(T) == IF T = {} THEN 0 ELSE LET v == CHOOSE x \in T : TRUE IN cnt(v) + Tot(T \ {v})
                    IN e.n[p] = Tot(SetOf(e.s))
         /\ UNCHANGED <<c, kind, S>>
\* ---------------------------------------------------------------- distribution (C03)
\* the scheme to distribute is part of the event; task numbers start at zero
Consistent(e, g) == /\ Len(e.parts[g].t) = Len(e.parts[g].lv) /\ Len(e.parts[g].t) = Len(e.parts[g].co)
                    /\ \A i \in DOMAIN e.parts[g].t : /\ e.parts[g].t[i] + 1 \in DOMAIN e.lv
                                                      /\ e.parts[g].lv[i] = e.lv[e.parts[g].t[i] + 1]
                                                      /\ e.parts[g].co[i] = e.co[e.parts[g].t[i] + 1]
                    /\ e.parts[g].n = Len(e.lv)
PartsOf(e) == [g \in DOMAIN e.parts |-> [i \in DOMAIN e.parts[g].t |-> e.parts[g].t[i] + 1]]
TDist == /\ Is("dist")
         /\ \A g \in DOMAIN Ev.parts : Consistent(Ev, g)
         /\ Partition(PartsOf(Ev), Len(Ev.lv))
         /\ Ev.kind = "rr" => \A g, h \in DOMAIN Ev.parts : Len(Ev.parts[g].t) - Len(Ev.parts[h].t) <= 1
         /\ Ev.kind = "lb" =>
              LET w == [i \in DOMAIN Ev.lv |-> Prod(Extents(Ev.lv[i], Ev.B))]
                  load == [g \in DOMAIN Ev.parts |-> SumSeq([i \in DOMAIN Ev.parts[g].t |-> w[Ev.parts[g].t[i] + 1]])]
                  big == MaxOf(SetOf(w))
              IN \A g, h \in DOMAIN Ev.parts : load[g] - load[h] <= big
         /\ Ev.kind = "file" => \A g \in DOMAIN Ev.parts : SetOf(PartsOf(Ev)[g]) = {i \in DOMAIN Ev.gr : Ev.gr[i] = g - 1}
         /\ UNCHANGED <<c, kind, S>>
\* systems get consecutive, disjoint pieces that make up the whole scheme, sized by their fractions (in 1/1000)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
TSys == /\ Is("sys")
        /\ LET e == Ev IN
           /\ Cat([k \in DOMAIN e.parts |-> e.parts[k].lv]) = e.lv
           /\ Cat([k \in DOMAIN e.parts |-> e.parts[k].co]) = e.co
           /\ \A k \in DOMAIN e.parts : Len(e.parts[k].lv) = Len(e.parts[k].co)
           /\ \A k \in DOMAIN e.parts : LET want == e.fr[k] * Len(e.lv)
                                            have == 1000 * Len(e.parts[k].lv)
                                        IN have - want <= 1000 /\ want - have <= 1000
        /\ UNCHANGED <<c, kind, S>>
TNext == TCase \/ TGen \/ TFt \/ TDown \/ TTrunc \/ TBelow \/ TFile \/ TDof \/ TPart \/ TDist \/ TSys
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
