------------------------------ MODULE RandomOps ------------------------------
(***************************************************************************)
(* Which random graphs there can be (G17): q.n nodes, numbered from 1.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Permitted(q) == IF q.cycle THEN (1..q.n) \X (1..q.n) ELSE {x \in (1..q.n) \X (1..q.n) : x[1] < x[2]}
PossibleGraphs(q) == CASE q.p = "low" -> {{}} [] q.p = "high" -> {Permitted(q)} [] q.p = "mid" -> SUBSET Permitted(q)
=============================================================================
