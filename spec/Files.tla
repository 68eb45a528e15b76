------------------------------- MODULE Files --------------------------------
(* Files that several processes write and read together: process r's values follow those  *)
(* of process r-1. A compressed file holds one list per process.                          *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE FlatTo(_, _)
FlatTo(s, k) == IF k = 0 THEN <<>> ELSE FlatTo(s, k - 1) \o s[k]
Flat(s) == FlatTo(s, Len(s))
RECURSIVE TotalTo(_, _)
TotalTo(len, k) == IF k = 0 THEN 0 ELSE TotalTo(len, k - 1) + len[k]
Total(len) == TotalTo(len, Len(len))
\* the part of process r in a file of processes with len values each
Slice(d, len, r) == SubSeq(d, TotalTo(len, r - 1) + 1, TotalTo(len, r))
Slices(d, len) == [r \in DOMAIN len |-> Slice(d, len, r)]
\* a file is [k |-> "none" | "raw" | "z" | "bad", d |-> values]
NoFile == [k |-> "none", d |-> <<>>]
\* the file can be read by processes with len values each
Fits(f, z, len) == IF z THEN f.k = "z" /\ [r \in DOMAIN f.d |-> Len(f.d[r])] = len ELSE f.k = "raw" /\ Len(f.d) = Total(len)
Seen(f, z, len) == IF z THEN f.d ELSE Slices(f.d, len)
\* file after raw values were written over an older one: without replacement a longer old file keeps its end
Over(old, new) == IF Len(old) > Len(new) THEN new \o SubSeq(old, Len(new) + 1, Len(old)) ELSE new
\* processes are divided into p equal parts, each with a file of its own
PartOf(r, np, p) == ((r - 1) * p) \div np
PartLists(v, p, q) == LET n == Len(v) \div p IN [i \in 1..n |-> v[q * n + i]]
Reduced(fn, a, b) == [i \in DOMAIN a |-> IF fn = "plus" THEN a[i] + b[i] ELSE IF a[i] < b[i] THEN a[i] ELSE b[i]]
=============================================================================
