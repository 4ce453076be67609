------------------------------ MODULE Digraph ------------------------------
(***************************************************************************)
(* Pure graph theory used as the oracle by every other module.             *)
(* A digraph is given by a successor function  adj : node -> SUBSET node   *)
(* (self-loops allowed; parallel edges collapse here, they are sequences   *)
(* of edge keys in GraphOps).                                              *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)

\* the nodes at distance 1, 2, ... from `frontier`, as a sequence of disjoint sets
RECURSIVE LayersFrom(_, _, _)
LayersFrom(adj, frontier, seen) ==
  LET nxt == UNION {adj[x] : x \in frontier} \ seen
  IN  IF nxt = {} THEN <<>> ELSE <<nxt>> \o LayersFrom(adj, nxt, seen \cup nxt)

\* shortest-path layers; a node on a cycle is in its own WithSelf layers, at the length of its shortest cycle
LayersWithSelf(adj, n) == LayersFrom(adj, {n}, {})
LayersOthers(adj, n)   == LayersFrom(adj, {n}, {n})

RECURSIVE ClosureR(_, _, _)
ClosureR(adj, frontier, seen) ==
  IF frontier = {} THEN seen
  ELSE LET nxt == UNION {adj[x] : x \in frontier} \ seen
       IN  ClosureR(adj, nxt, seen \cup nxt)

\* the nodes to which a non-empty path leads from n
ReachPlus(adj, n) == ClosureR(adj, {n}, {})
ReachFn(adj) == [n \in DOMAIN adj |-> ReachPlus(adj, n)]

Reverse(adj) == [n \in DOMAIN adj |-> {m \in DOMAIN adj : n \in adj[m]}]

\* --- the same notions stated independently, by paths: used only to check the ones above in MCDigraph
PathLen(adj, a, b, k) == \E p \in [0..k -> DOMAIN adj] :
                           p[0] = a /\ p[k] = b /\ \A i \in 1..k : p[i] \in adj[p[i-1]]
ReachPlusByPaths(adj, a) == {b \in DOMAIN adj : \E k \in 1..Cardinality(DOMAIN adj) : PathLen(adj, a, b, k)}
DistByPaths(adj, a, b) == CHOOSE k \in 1..Cardinality(DOMAIN adj) :
                            PathLen(adj, a, b, k) /\ \A j \in 1..(k-1) : ~PathLen(adj, a, b, j)

\* --- loops
OnCycle(reach, n) == n \in reach[n]
SameLoop(reach, a, b) == b \in reach[a] /\ a \in reach[b]

\* --- roots: the first listed node of each strongly connected class that nothing outside the class leads to
IsSource(reach, n) == \A m \in DOMAIN reach : n \in reach[m] => (m = n \/ m \in reach[n])
RootsOf(reach, order) ==
  SelectSeq(order, LAMBDA n : /\ IsSource(reach, n)
                              /\ \A i \in DOMAIN order :
                                   (order[i] # n /\ SameLoop(reach, n, order[i]))
                                     => \E j \in DOMAIN order : order[j] = n /\ j < i)

\* --- where looks start: the nodes on cycles and those nothing but cycles leads to; every other node inherits from its parents
LooksStart(reach, parents) == {n \in DOMAIN reach : OnCycle(reach, n) \/ \A m \in parents[n] : OnCycle(reach, m)}

\* --- certificates, by which the loops and roots of large graphs are known without their whole reachability relation
\* (MCDigraph checks that they mean what they promise)
Position(order) == [n \in Range(order) |-> CHOOSE i \in DOMAIN order : order[i] = n]
Acyclic(adj, order) ==
  LET pos == Position(order) IN
  \/ \A n \in DOMAIN adj : \A m \in adj[n] : pos[n] < pos[m]
  \/ \A n \in DOMAIN adj : \A m \in adj[n] : pos[n] > pos[m]
OneClass(adj, rev, n) == ReachPlus(adj, n) = DOMAIN adj /\ ReachPlus(rev, n) = DOMAIN adj
Parentless(rev, order) == SelectSeq(order, LAMBDA n : rev[n] = {})

\* the defining property of roots, independent of the construction above
RootsCover(reach, rs) ==
  /\ \A a \in rs, b \in rs : b \in reach[a] => a = b
  /\ \A n \in DOMAIN reach : n \in rs \/ \E a \in rs : n \in reach[a]
=============================================================================
