------------------------------ MODULE TrGrids ------------------------------
(* Recorded behaviour of distributed grids: one "case" per grid, one "rank" event with the *)
(* complete index maps of every process, "end" when all processes have reported.          *)
EXTENDS Grids, TraceBase
VARIABLES g, owned, seen
tvars == <<l, g, owned, seen>>

\* computed once per case and kept in the state
GridRec(c) ==
  LET ext == Extents(c.L, c.B)
      dec == CASE c.kind = "default" -> DefaultDec(c.L, c.B, c.P, c.fwd)
               [] c.kind = "given" -> c.dec
               [] c.kind = "down" -> Downsample(c.dec, c.ref, c.L, c.B)
  IN [L |-> c.L, B |-> c.B, P |-> c.P, ext |-> ext, dec |-> dec, np |-> c.np,
      N |-> Prod(ext), big |-> c.big,
      pts |-> IF c.big THEN <<>> ELSE [i \in 1..Prod(ext) |-> VecIdx(i - 1, ext)]]

TInit == l = 1 /\ g = [N |-> 0, big |-> FALSE] /\ owned = {} /\ seen = {}

TCase == /\ Is("case") /\ g' = GridRec(Ev) /\ owned' = {} /\ seen' = {}
         /\ ValidDec(g'.dec, g'.ext)

TRank ==
  /\ Is("rank") /\ ~g.big
  /\ LET r == Ev
         ext == g.ext
         D == DOMAIN ext
         lo == LowerOf(g.dec, r.c)
         up == UpperOf(g.dec, ext, r.c)
         lext == Sub(up, lo)
         n == Prod(lext)
         mine == [k \in 1..n |-> LinIdx(Add(VecIdx(k - 1, lext), lo), ext)]
         myset == {mine[k] : k \in 1..n}
     IN /\ r.c \notin seen /\ \A d \in D : r.c[d] \in 0..(g.P[d] - 1)
        /\ r.dec = g.dec
        /\ r.ext = ext /\ r.N = g.N
        /\ r.lo = lo /\ r.up = up /\ r.lext = lext /\ r.n = n
        /\ r.off = [d \in D |-> ProdTo(ext, d - 1)] /\ r.loff = [d \in D |-> ProdTo(lext, d - 1)]
        \* local -> global and back
        /\ r.l2g = mine
        /\ r.l2v = [k \in 1..n |-> VecIdx(k - 1, lext)]
        /\ r.v2l = [k \in 1..n |-> k - 1]
        /\ r.g2v = g.pts
        /\ r.v2g = [k \in 1..g.N |-> k - 1]
        /\ r.g2l = [k \in 1..g.N |-> IF (k - 1) \in myset THEN LinIdx(Sub(g.pts[k], lo), lext) ELSE -1]
        /\ r.here = [k \in 1..g.N |-> (k - 1) \in myset]
        /\ r.herev = r.here
        /\ r.g2lv = [k \in 1..g.N |-> IF (k - 1) \in myset THEN Sub(g.pts[k], lo) ELSE <<>>]
        \* coordinates in units of the grid spacing
        /\ r.gc = [k \in 1..g.N |-> [d \in D |-> CoordNum(g.pts[k][d], g.B[d])]]
        /\ r.lc = [k \in 1..n |-> [d \in D |-> CoordNum(VecIdx(k - 1, lext)[d] + lo[d], g.B[d])]]
        /\ r.loc = [d \in D |-> CoordNum(lo[d], g.B[d])] /\ r.upc = [d \in D |-> CoordNum(up[d], g.B[d])]
        \* level / index notation
        /\ r.lil = [k \in 1..g.N |-> [d \in D |-> Level1(g.pts[k][d], g.L[d], g.B[d])]]
        /\ r.lii = [k \in 1..g.N |-> [d \in D |-> Index1(g.pts[k][d], g.L[d], g.B[d])]]
        /\ r.lev = [d \in D |-> [i \in 1..ext[d] |-> Level1(i - 1, g.L[d], g.B[d])]]
        /\ \A d \in D : \A i \in 1..ext[d] :
             /\ LET p == LeftPred(i - 1, g.L[d], g.B[d]) IN IF p < 0 THEN r.lp[d][i] < 0 ELSE r.lp[d][i] = p
             /\ LET p == RightPred(i - 1, g.L[d], g.B[d]) IN IF p < 0 THEN r.rp[d][i] < 0 ELSE r.rp[d][i] = p
        \* owners: all processes agree
        /\ r.own = [k \in 1..g.N |-> OwnerCoords(g.dec, g.pts[k])]
        /\ r.nb = [d \in D |-> [i \in 1..ext[d] |-> [r.c EXCEPT ![d] = Owner1(g.dec[d], i - 1)]]]
        /\ r.nbout = [d \in D |-> <<-1, -1>>]
        /\ r.los = [k \in 1..g.np |-> LowerOf(g.dec, r.coords[k])]
        /\ r.ups = [k \in 1..g.np |-> UpperOf(g.dec, ext, r.coords[k])]
        \* points on the border of the domain
        /\ r.bd = [k \in 1..g.N |-> [d \in D |-> g.B[d] = 2 /\ g.pts[k][d] \in {0, ext[d] - 1}]]
        /\ r.edge = [d \in D |-> <<r.c[d] = 0, r.c[d] = g.P[d] - 1>>]
        /\ r.sub = <<ext, lext, lo>>
        /\ myset \cap owned = {}
        /\ owned' = owned \cup myset
        /\ seen' = seen \cup {r.c}
  /\ UNCHANGED g

\* a big grid: the maps of the listed local (li), global (gi) and 1d (ai) indices
TSample ==
  /\ Is("rank") /\ g.big
  /\ LET r == Ev
         ext == g.ext
         D == DOMAIN ext
         lo == LowerOf(g.dec, r.c)
         up == UpperOf(g.dec, ext, r.c)
         lext == Sub(up, lo)
     IN /\ r.c \notin seen /\ \A d \in D : r.c[d] \in 0..(g.P[d] - 1)
        /\ r.dec = g.dec
        /\ r.ext = ext /\ r.N = g.N
        /\ r.lo = lo /\ r.up = up /\ r.lext = lext /\ r.n = Prod(lext)
        /\ r.off = [d \in D |-> ProdTo(ext, d - 1)] /\ r.loff = [d \in D |-> ProdTo(lext, d - 1)]
        /\ \A k \in DOMAIN r.li :
             LET v == VecIdx(r.li[k], lext)
                 x == Add(v, lo)
             IN /\ r.l2g[k] = LinIdx(x, ext) /\ r.l2v[k] = v /\ r.v2l[k] = r.li[k]
                /\ r.lc[k] = [d \in D |-> CoordNum(x[d], g.B[d])]
        /\ \A k \in DOMAIN r.gi :
             LET x == VecIdx(r.gi[k], ext)
                 here == InBox(x, lo, up)
             IN /\ r.g2v[k] = x /\ r.v2g[k] = r.gi[k]
                /\ r.here[k] = here /\ r.herev[k] = here
                /\ r.g2l[k] = (IF here THEN LinIdx(Sub(x, lo), lext) ELSE -1)
                /\ r.g2lv[k] = (IF here THEN Sub(x, lo) ELSE <<>>)
                /\ r.gc[k] = [d \in D |-> CoordNum(x[d], g.B[d])]
                /\ r.lil[k] = [d \in D |-> Level1(x[d], g.L[d], g.B[d])]
                /\ r.lii[k] = [d \in D |-> Index1(x[d], g.L[d], g.B[d])]
                /\ r.own[k] = OwnerCoords(g.dec, x)
                /\ r.bd[k] = [d \in D |-> g.B[d] = 2 /\ x[d] \in {0, ext[d] - 1}]
        /\ r.loc = [d \in D |-> CoordNum(lo[d], g.B[d])] /\ r.upc = [d \in D |-> CoordNum(up[d], g.B[d])]
        /\ \A d \in D : \A k \in DOMAIN r.ai[d] :
             LET i == r.ai[d][k]
                 pl == LeftPred(i, g.L[d], g.B[d])
                 pr == RightPred(i, g.L[d], g.B[d])
             IN /\ r.lev[d][k] = Level1(i, g.L[d], g.B[d])
                /\ IF pl < 0 THEN r.lp[d][k] < 0 ELSE r.lp[d][k] = pl
                /\ IF pr < 0 THEN r.rp[d][k] < 0 ELSE r.rp[d][k] = pr
                /\ r.nb[d][k] = [r.c EXCEPT ![d] = Owner1(g.dec[d], i)]
        /\ r.nbout = [d \in D |-> <<-1, -1>>]
        /\ r.los = [k \in 1..g.np |-> LowerOf(g.dec, r.coords[k])]
        /\ r.ups = [k \in 1..g.np |-> UpperOf(g.dec, ext, r.coords[k])]
        /\ r.edge = [d \in D |-> <<r.c[d] = 0, r.c[d] = g.P[d] - 1>>]
        /\ r.sub = <<ext, lext, lo>>
        /\ seen' = seen \cup {r.c}
  /\ UNCHANGED <<g, owned>>

TEnd == /\ Is("end") /\ (IF g.big THEN TRUE ELSE owned = 0..(g.N - 1)) /\ Cardinality(seen) = g.np
        /\ UNCHANGED <<g, owned, seen>>

TNext == TCase \/ TRank \/ TSample \/ TEnd
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
