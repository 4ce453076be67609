---------------------------- MODULE OverrideOps ----------------------------
(***************************************************************************)
(* What the calls about style and colour overrides do (G24): the operators *)
(* that both the model OverrideModel and trace validation (OverrideTrace)  *)
(* use.                                                                    *)
(*                                                                         *)
(* A "look" is a function from attribute to token.  A graph has a look (or *)
(* none yet) for every node and edge, the overrides given so far, and the  *)
(* graph-wide styles; rendering layers them.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS DerN,    \* colour -> what a node's colours are when derived from it
          DerE     \* the same for edges

Range(q) == {q[i] : i \in DOMAIN q}
NoLook == [none |-> "none"]
With(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
\* the attributes of `part` win over those of `look`
Over(part, look) == [a \in DOMAIN look |-> IF a \in DOMAIN part THEN part[a] ELSE look[a]]
Key(s, e, r) == s \o ">" \o e \o "#" \o r
Keys(G) == {Key(G.edges[i].s, G.edges[i].e, G.edges[i].r) : i \in DOMAIN G.edges}
Nodes(G) == Range(G.nodes)
OnlyOn(f, S) == [x \in DOMAIN f \cap S |-> f[x]]

\* ----- what the calls do to the state
New(e) == [nodes |-> <<>>, edges |-> <<>>, pn |-> <<>>, pe |-> <<>>, ns |-> <<>>, es |-> <<>>, nc |-> <<>>, ec |-> <<>>,
           gn |-> e.gn, ge |-> e.ge, ow |-> e.ow]

RECURSIVE AddNodes(_, _, _)
AddNodes(G, nd, i) ==
  IF i > Len(nd) THEN G
  ELSE AddNodes(IF nd[i].name \in Nodes(G)
                THEN G
                ELSE [G EXCEPT !.nodes = Append(@, nd[i].name), !.pn = With(@, nd[i].name, nd[i].look)], nd, i + 1)
RECURSIVE AddEdges(_, _, _)
AddEdges(G, ed, i) ==
  IF i > Len(ed) THEN G
  ELSE LET k == Key(ed[i].s, ed[i].e, ed[i].r) IN
       AddEdges(IF k \in Keys(G) THEN G
                ELSE [G EXCEPT !.edges = Append(@, [s |-> ed[i].s, e |-> ed[i].e, r |-> ed[i].r]),
                               !.pe = With(@, k, ed[i].look)], ed, i + 1)

\* a key of an override of edges: an edge's own triple, or the pair of its ends, which is the last such edge described
Resolve(ed, k) ==
  IF k.r # "?" THEN Key(k.s, k.e, k.r)
  ELSE LET I == {i \in DOMAIN ed : ed[i].s = k.s /\ ed[i].e = k.e}
           last == CHOOSE i \in I : \A j \in I : j <= i
       IN  Key(ed[last].s, ed[last].e, ed[last].r)
RECURSIVE PutN(_, _, _)
PutN(f, items, i) == IF i > Len(items) THEN f ELSE PutN(With(f, items[i].k, items[i].v), items, i + 1)
RECURSIVE PutE(_, _, _, _)
PutE(f, items, ed, i) == IF i > Len(items) THEN f ELSE PutE(With(f, Resolve(ed, items[i].k), items[i].v), items, ed, i + 1)

AppendDesc(G, e) ==
  LET H == AddEdges(AddNodes(G, e.nd, 1), e.ed, 1) IN
  [H EXCEPT !.ns = PutN(@, e.ns, 1), !.nc = PutN(@, e.nc, 1),
            !.es = PutE(@, e.es, e.ed, 1), !.ec = PutE(@, e.ec, e.ed, 1),
            !.gn = IF e.gn.k = "same" THEN @ ELSE e.gn, !.ge = IF e.ge.k = "same" THEN @ ELSE e.ge]

RemoveNode(G, n) ==
  LET keep(x) == x.s # n /\ x.e # n IN
  [G EXCEPT !.nodes = SelectSeq(@, LAMBDA x : x # n), !.edges = SelectSeq(@, keep), !.pn = OnlyOn(@, DOMAIN @ \ {n}),
            !.pe = OnlyOn(@, {Key(x.s, x.e, x.r) : x \in {y \in Range(G.edges) : keep(y)}})]
Disconnect(G, k) ==
  [G EXCEPT !.edges = SelectSeq(@, LAMBDA x : Key(x.s, x.e, x.r) # k), !.pe = OnlyOn(@, DOMAIN @ \ {k})]

\* overrides of absent nodes and edges are not carried to another graph
Convert(G, ow) == [G EXCEPT !.ow = ow, !.ns = OnlyOn(@, Nodes(G)), !.nc = OnlyOn(@, Nodes(G)),
                            !.es = OnlyOn(@, Keys(G)), !.ec = OnlyOn(@, Keys(G))]
NoGlobal == [k |-> "none"]
Sum(A, B) ==
  LET a == Convert(A, "n")  b == Convert(B, "n")
      more == SelectSeq(b.nodes, LAMBDA n : n \notin Nodes(a))
      moreE == SelectSeq(b.edges, LAMBDA x : Key(x.s, x.e, x.r) \notin Keys(a))
      pick(f, g) == [x \in (DOMAIN f) \cup (DOMAIN g) |->
                      IF x \notin DOMAIN f THEN g[x] ELSE IF x \notin DOMAIN g THEN f[x] ELSE IF f[x] = NoLook THEN g[x] ELSE f[x]]
      join(f, g) == [x \in (DOMAIN f) \cup (DOMAIN g) |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
  IN  [nodes |-> a.nodes \o more, edges |-> a.edges \o moreE, pn |-> pick(a.pn, b.pn), pe |-> pick(a.pe, b.pe),
       ns |-> join(a.ns, b.ns), es |-> join(a.es, b.es), nc |-> join(a.nc, b.nc), ec |-> join(a.ec, b.ec),
       gn |-> NoGlobal, ge |-> NoGlobal, ow |-> "n"]

\* ----- the looks a rendering must show
NodeLook(G, n, auto) ==
  LET base == IF G.gn.k # "none" /\ (G.pn[n] = NoLook \/ G.ow = "y") THEN G.gn.full
              ELSE IF G.pn[n] # NoLook THEN G.pn[n] ELSE auto[n]
      a == IF n \in DOMAIN G.ns THEN Over(G.ns[n], base) ELSE base
      b == IF n \in DOMAIN G.nc THEN Over(DerN[G.nc[n]], a) ELSE a
  IN  IF G.gn.k = "dict" THEN Over(G.gn.part, b) ELSE b
EdgeLook(G, k, auto) ==
  LET base == IF G.ge.k # "none" /\ (G.pe[k] = NoLook \/ G.ow = "y") THEN G.ge.full
              ELSE IF G.pe[k] # NoLook THEN G.pe[k] ELSE auto[k]
      a == IF k \in DOMAIN G.es THEN G.es[k] ELSE base
      b == IF k \in DOMAIN G.ec THEN Over(DerE[G.ec[k]], a) ELSE a
  IN  IF G.ge.k = "dict" THEN Over(G.ge.part, b) ELSE b

Rendered(G, e) == [G EXCEPT !.pn = [n \in Nodes(G) |-> NodeLook(G, n, e.auton)],
                            !.pe = [k \in Keys(G) |-> EdgeLook(G, k, e.autoe)]]


\* ----- the calls: the heap of graphs afterwards
Step(heap, e) ==
  CASE e.op = "new"     -> With(heap, e.g, New(e))
    [] e.op = "append"  -> With(heap, e.g, AppendDesc(heap[e.g], e))
    [] e.op = "rm_node" -> With(heap, e.g, RemoveNode(heap[e.g], e.name))
    [] e.op = "disconnect" -> With(heap, e.g, Disconnect(heap[e.g], e.key))
    [] e.op = "restyle" -> With(heap, e.g, IF e.c = "n" THEN [heap[e.g] EXCEPT !.pn = [@ EXCEPT ![e.x] = Over(e.part, @)]]
                                                        ELSE [heap[e.g] EXCEPT !.pe = [@ EXCEPT ![e.x] = Over(e.part, @)]])
    [] e.op = "copy"    -> With(heap, e.g2, heap[e.g])
    [] e.op = "build"   -> With(heap, e.g2, Convert(heap[e.g], e.ow))
    [] e.op = "sum"     -> With(heap, e.g3, Sum(heap[e.g], heap[e.g2]))
    [] e.op = "render"  -> With(heap, e.g, Rendered(heap[e.g], e))
=============================================================================
