------------------------------ MODULE MCDigraph ------------------------------
(***************************************************************************)
(* Checks the graph theory used as oracle on every digraph of N nodes      *)
(* against independent definitions by explicit paths.                      *)
(***************************************************************************)
EXTENDS Digraph, Naturals, Sequences, FiniteSets

CONSTANT N
V == 1..N
VARIABLE adj
Init == adj \in [V -> SUBSET V]
Next == UNCHANGED adj
Spec == Init /\ [][Next]_adj

\* walks of exactly k steps, by matrix product
RECURSIVE Walk(_, _)
Walk(a, k) == IF k = 1 THEN adj[a] ELSE UNION {adj[x] : x \in Walk(a, k - 1)}
\* a shortest path visits no node twice, so at most N steps need looking at (a cycle through the start has N)
Reaches(a) == UNION {Walk(a, k) : k \in 1..N}
Dist(a, b) == CHOOSE k \in 1..N : b \in Walk(a, k) /\ \A j \in 1..(k - 1) : b \notin Walk(a, j)

Reach == \A a \in V : ReachPlus(adj, a) = Reaches(a) /\ (N <= 3 => ReachPlus(adj, a) = ReachPlusByPaths(adj, a))
Layers ==
  \A a \in V :
    LET up == LayersWithSelf(adj, a)  down == LayersOthers(adj, a) IN
    /\ UNION Range(up) = Reaches(a) /\ UNION Range(down) = Reaches(a) \ {a}
    /\ \A d \in DOMAIN up : up[d] # {} /\ up[d] = {b \in Reaches(a) : Dist(a, b) = d}
    /\ \A d \in DOMAIN down : down[d] # {} /\ down[d] = {b \in Reaches(a) \ {a} : Dist(a, b) = d}
Loops ==
  LET r == ReachFn(adj) IN
  /\ \A a \in V : OnCycle(r, a) <=> \E k \in 1..N : a \in Walk(a, k)
  /\ \A a, b \in V : SameLoop(r, a, b) => (OnCycle(r, a) /\ OnCycle(r, b) /\ SameLoop(r, b, a))
  /\ \A a \in V : OnCycle(r, a) => SameLoop(r, a, a)
\* the roots satisfy the defining property, for every order in which the nodes may be listed; the identity suffices up to renaming
Roots ==
  LET r == ReachFn(adj)  order == [i \in V |-> i]  rs == Range(RootsOf(r, order)) IN
  /\ RootsCover(r, rs)
  \* one per source class, the first listed one
  /\ \A a \in rs : \A b \in V : (SameLoop(r, a, b) \/ a = b) => a <= b
  \* no smaller set covers
  /\ \A a \in rs : ~RootsCover(r, rs \ {a})
\* the certificates used for large graphs
Certificates ==
  LET r == ReachFn(adj)  rev == Reverse(adj)  order == [i \in V |-> i] IN
  /\ Acyclic(adj, order) => (\A a \in V : ~OnCycle(r, a)) /\ RootsOf(r, order) = Parentless(rev, order)
  /\ \A a \in V : OneClass(adj, rev, a) => (\A b, c \in V : SameLoop(r, b, c)) /\ RootsOf(r, order) = <<order[1]>>
\* looks reach every node: following parents upwards from a node that inherits never comes back and ends where looks start
Looks ==
  LET r == ReachFn(adj)  pa == Reverse(adj)  S == LooksStart(r, pa)
      from == [n \in V |-> IF n \in S THEN {} ELSE pa[n]]
  IN  /\ S # {}
      /\ \A n \in V \ S : from[n] # {} /\ n \notin ReachPlus(from, n) /\ ReachPlus(from, n) \cap S # {}
Converse == Reverse(Reverse(adj)) = adj /\ \A a, b \in V : b \in ReachPlus(adj, a) <=> a \in ReachPlus(Reverse(adj), b)
=============================================================================
