------------------------------- MODULE Sizes -------------------------------
(* Subspace size files prepared in advance for systems that compute parts of one scheme.  *)
(* A system has the subspaces below its grids; the systems have to exchange what at least *)
(* two of them have (the conjoint subspaces), and nothing else.                           *)
EXTENDS Integers, Sequences, FiniteSets
Below(v, g) == \A d \in DOMAIN v : v[d] <= g[d]
\* grids: sequence of level vectors of one system
Has(grids, v) == \E k \in DOMAIN grids : Below(v, grids[k])
Owners(systems, v) == {s \in DOMAIN systems : Has(systems[s], v)}
Conjoint(systems, v) == Cardinality(Owners(systems, v)) >= 2
\* entry of the file of one system / of the conjoint file, len: the process's points of the subspace
Entry(grids, v, len) == IF Has(grids, v) THEN len ELSE 0
ConjointEntry(systems, v, len) == IF Conjoint(systems, v) THEN len ELSE 0
=============================================================================
