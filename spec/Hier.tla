-------------------------------- MODULE Hier --------------------------------
(* Hierarchical basis changes on integer-valued grids. Values are scaled by a power of two *)
(* chosen by the environment so that all halvings are exact; Half/Quarter insist on that.  *)
EXTENDS Grids, TLC

Half(x) == IF x % 2 = 0 THEN x \div 2 ELSE Assert(FALSE, <<"inexact half of", x>>)
Quarter(x) == IF x % 4 = 0 THEN x \div 4 ELSE Assert(FALSE, <<"inexact quarter of", x>>)

\* A pole is a function over 0..2^n (both domain ends present).
\* level of pole position i
PLev(i, n) == IF i = 0 \/ i = Pow2(n) THEN 0 ELSE n - Ctz(i)

\* --- hat functions: surplus with respect to the two hierarchical ancestors
HatH(f, n, m) == [i \in DOMAIN f |->
    LET v == PLev(i, n) IN IF v > m THEN LET s == Pow2(n - v) IN f[i] - Half(f[i - s] + f[i + s]) ELSE f[i]]
RECURSIVE HatDFrom(_, _, _)
HatDFrom(f, n, v) ==
  IF v > n THEN f
  ELSE LET s == Pow2(n - v)
       IN HatDFrom(TLCEval([i \in DOMAIN f |-> IF PLev(i, n) = v THEN f[i] + Half(f[i - s] + f[i + s]) ELSE f[i]]), n, v + 1)
HatD(f, n, m) == HatDFrom(f, n, m + 1)

\* --- one level of the wavelet-like bases; s = step width on this level, e = last position
Odd(i, s) == (i % s) = 0 /\ ((i \div s) % 2) = 1
Even(i, s) == (i % s) = 0 /\ ((i \div s) % 2) = 0
\* prediction: odd positions become the difference to the mean of their neighbours
Predict(f, s, sign) == TLCEval([i \in DOMAIN f |-> IF Odd(i, s) THEN f[i] - sign * Half(f[i - s] + f[i + s]) ELSE f[i]])

FWLevelH(f, n, s, per) ==
  LET e == Pow2(n)
      g == TLCEval([i \in DOMAIN f |->
              IF i = 0 \/ i = e
              THEN (IF per THEN Quarter(f[0] + f[e] + f[s] + f[e - s])
                    ELSE IF i = 0 THEN Half(f[0] + f[s]) ELSE Half(f[e] + f[e - s]))
              ELSE IF Even(i, s) THEN Quarter(f[i - s] + f[i + s] + 2 * f[i]) ELSE f[i]])
  IN Predict(g, s, 1)
FWLevelD(f, n, s, per) ==
  LET e == Pow2(n)
      g == Predict(f, s, -1)
  IN [i \in DOMAIN g |->
        IF i = 0 \/ i = e
        THEN (IF per THEN g[0] + g[e] - Half(g[s] + g[e - s])
              ELSE IF i = 0 THEN 2 * g[0] - g[s] ELSE 2 * g[e] - g[e - s])
        ELSE IF Even(i, s) THEN 2 * g[i] - Half(g[i - s] + g[i + s]) ELSE g[i]]

BOLevelH(f, n, s, per) ==
  LET e == Pow2(n)
      g == Predict(f, s, 1)
  IN [i \in DOMAIN g |->
        IF i = 0 \/ i = e
        THEN (IF per THEN Half(g[0] + g[e]) + Quarter(g[s] + g[e - s])
              ELSE IF i = 0 THEN g[0] + Half(g[s]) ELSE g[e] + Half(g[e - s]))
        ELSE IF Even(i, s) THEN g[i] + Quarter(g[i - s] + g[i + s]) ELSE g[i]]
BOLevelD(f, n, s, per) ==
  LET e == Pow2(n)
      g == TLCEval([i \in DOMAIN f |->
        IF i = 0 \/ i = e
        THEN (IF per THEN Half(f[0] + f[e]) - Quarter(f[s] + f[e - s])
              ELSE IF i = 0 THEN f[0] - Half(f[s]) ELSE f[e] - Half(f[e - s]))
        ELSE IF Even(i, s) THEN f[i] - Quarter(f[i - s] + f[i + s]) ELSE f[i]])
  IN Predict(g, s, -1)

RECURSIVE LevelsH(_, _, _, _, _)
LevelsH(basis, f, n, m, k) ==       \* k = 0, 1, ... : step width 2^k
  IF k >= n - m THEN f
  ELSE LevelsH(basis,
         TLCEval(CASE basis = "fw"  -> FWLevelH(f, n, Pow2(k), FALSE)
           [] basis = "fwp" -> FWLevelH(f, n, Pow2(k), TRUE)
           [] basis = "bo"  -> BOLevelH(f, n, Pow2(k), FALSE)
           [] basis = "bop" -> BOLevelH(f, n, Pow2(k), TRUE)), n, m, k + 1)
RECURSIVE LevelsD(_, _, _, _)
LevelsD(basis, f, n, k) ==
  IF k < 0 THEN f
  ELSE LevelsD(basis,
         TLCEval(CASE basis = "fw"  -> FWLevelD(f, n, Pow2(k), FALSE)
           [] basis = "fwp" -> FWLevelD(f, n, Pow2(k), TRUE)
           [] basis = "bo"  -> BOLevelD(f, n, Pow2(k), FALSE)
           [] basis = "bop" -> BOLevelD(f, n, Pow2(k), TRUE)), n, k - 1)

PoleH(basis, f, n, m) == IF m >= n THEN f ELSE IF basis \in {"hat", "hatp"} THEN HatH(f, n, m) ELSE LevelsH(basis, f, n, m, 0)
PoleD(basis, f, n, m) == IF m >= n THEN f ELSE IF basis \in {"hat", "hatp"} THEN HatD(f, n, m) ELSE LevelsD(basis, f, n, n - m - 1)

\* --- grids: sequences over 1..N in linear order; transform every pole in dimension d
\* how the points of a pole are completed at the domain ends
PoleAt(q, n, b, val(_)) ==
  CASE b = 2 -> val(q)
    [] b = 1 -> IF q = Pow2(n) THEN val(0) ELSE val(q)
    [] b = 0 -> IF q = 0 \/ q = Pow2(n) THEN 0 ELSE val(q - 1)
TransformDim(F, ext, d, L, B, basis, m, hier) ==
  LET off == ProdTo(ext, d - 1)
      jump == off * ext[d]
      high == Prod(ext) \div jump
      n == L[d]
      poles == TLCEval([lo \in 0..(off - 1), hi \in 0..(high - 1) |->
                  LET f == TLCEval([q \in 0..Pow2(n) |-> PoleAt(q, n, B[d], LAMBDA j : F[hi * jump + j * off + lo + 1])])
                  IN TLCEval(IF hier THEN PoleH(basis, f, n, m) ELSE PoleD(basis, f, n, m))])
  IN TLCEval([i \in 1..Prod(ext) |->
        LET k == i - 1
            hi == k \div jump
            j == (k % jump) \div off
        IN poles[k % off, hi][CoordNum(j, B[d])]])
RECURSIVE TransformTo(_, _, _, _, _, _, _, _, _)
TransformTo(F, ext, L, B, bases, dims, m, hier, d) ==
  IF d > Len(L) THEN F
  ELSE TransformTo(IF dims[d] /\ m[d] < L[d] THEN TransformDim(F, ext, d, L, B, bases[d], m[d], hier) ELSE F,
                   ext, L, B, bases, dims, m, hier, d + 1)
Hierarchize(F, L, B, bases, dims, m) == TransformTo(F, Extents(L, B), L, B, bases, dims, m, TRUE, 1)
Dehierarchize(F, L, B, bases, dims, m) == TransformTo(F, Extents(L, B), L, B, bases, dims, m, FALSE, 1)
=============================================================================
