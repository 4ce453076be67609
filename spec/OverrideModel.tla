--------------------------- MODULE OverrideModel ---------------------------
(***************************************************************************)
(* The state machine of style and colour overrides (G24): one action per   *)
(* call, each defined by OverrideOps.  A look has two attributes, one that *)
(* colour overrides determine ("main") and one they do not ("size"); its   *)
(* tokens tell where they come from: "x" nothing given, "p" given with the *)
(* node or edge, "o" override of its style, "c" override of its colour,    *)
(* "d"/"s" graph-wide dictionary/style.                                    *)
(*                                                                         *)
(* TLC explores it exhaustively, checks the laws below, and (Emit) prints  *)
(* every transition, which the replay leads the real code through.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS
  Graphs,      \* graphs, made in this order
  Names, Ids,
  Edges,       \* pairs of names that may be connected, written "a>b"
  Absent,      \* names of nodes that are never there
  Wides,       \* kinds of graph-wide styles used: "none", "dict", "style"
  Permits,     \* overwriting allowed: "y", "n"
  Looks,       \* may nodes and edges come with a style: "none", "p"
  Ops, Watch, Emit

INSTANCE OverrideOps WITH DerN <- [c |-> [main |-> "c"]], DerE <- [c |-> [main |-> "c"]]

VARIABLES heap, last
vars == <<heap, last>>
View == heap
Live == DOMAIN heap

Number == 1
Reached(e) == TLCSet(Number, TLCGet(Number) + 1) /\ last' = [id |-> TLCGet(Number), from |-> last.id, op |-> e]
Show(e) == (Emit /\ e.op \in Watch) => PrintT("@@" \o ToJson([at |-> last.id, e |-> e, out |-> "ok"]))
Announced == Emit => PrintT("##" \o ToJson([id |-> last.id, from |-> last.from, op |-> last.op, h |-> <<>>]))
Do(e) ==
  /\ Show(e)
  /\ IF Step(heap, e) # heap THEN heap' = Step(heap, e) /\ Reached(e) ELSE UNCHANGED vars
\* a graph that is made from others and not followed
Look(e) == Show(e) /\ UNCHANGED vars

All(x) == [main |-> x, size |-> x]
Auto == All("x")
Wide(k) == CASE k = "none" -> [k |-> "none"]
             [] k = "same" -> [k |-> "same"]
             [] k = "dict" -> [k |-> "dict", full |-> [main |-> "x", size |-> "d"], part |-> [size |-> "d"]]
             [] k = "style" -> [k |-> "style", full |-> All("s"), part |-> <<>>]
Given(x) == IF x = "none" THEN NoLook ELSE All(x)
Pair(s, e) == s \o ">" \o e

\* the renderings the property speaks about: colour overrides and overrides of edges need the permission
Shown(G) == G.ow = "y" \/ (DOMAIN G.nc \cap Nodes(G) = {} /\ (DOMAIN G.es \cup DOMAIN G.ec) \cap Keys(G) = {})
Plain == [op |-> "append", nd |-> <<>>, ed |-> <<>>, ns |-> <<>>, nc |-> <<>>, es |-> <<>>, ec |-> <<>>, gn |-> Wide("same"), ge |-> Wide("same")]
Maybe(x, q) == IF x THEN q ELSE <<>>

NewA ==
  \E g \in Graphs \ Live, gn \in Wides, ge \in Wides, ow \in Permits :
    Do([op |-> "new", g |-> g, gn |-> Wide(gn), ge |-> Wide(ge), ow |-> ow])

\* a node, with or without overrides, or overrides for a node there may be or come
NodeA(g) ==
  \E n \in Names \cup Absent, described \in BOOLEAN, p \in Looks, ns \in BOOLEAN, nc \in BOOLEAN :
    /\ n \in Absent => ~described
    /\ p # "none" => described /\ n \notin Nodes(heap[g])
    /\ described \/ ns \/ nc
    /\ nc => heap[g].ow = "y"
    /\ Do([Plain EXCEPT !.nd = Maybe(described, <<[name |-> n, look |-> Given(p)]>>), !.ns = Maybe(ns, <<[k |-> n, v |-> [size |-> "o"]]>>),
                        !.nc = Maybe(nc, <<[k |-> n, v |-> "c"]>>)] @@ [g |-> g])

\* an edge, with or without overrides; it brings its ends
EdgeA(g) ==
  \E s \in Names, e \in Names, r \in Ids, p \in Looks, es \in BOOLEAN, ec \in BOOLEAN :
    LET G == heap[g]  k == [s |-> s, e |-> e, r |-> r]
        ends == SelectSeq(IF s = e THEN <<s>> ELSE <<s, e>>, LAMBDA n : n \notin Nodes(G))
    IN  /\ Pair(s, e) \in Edges
        /\ p # "none" => Key(s, e, r) \notin Keys(G)
        /\ es \/ ec => G.ow = "y"
        /\ Do([Plain EXCEPT !.nd = [i \in DOMAIN ends |-> [name |-> ends[i], look |-> NoLook]], !.ed = <<k @@ [look |-> Given(p)]>>,
                            !.es = Maybe(es, <<[k |-> k, v |-> All("o")]>>), !.ec = Maybe(ec, <<[k |-> k, v |-> "c"]>>)] @@ [g |-> g])

WideA(g) ==
  \E gn \in Wides \cup {"same"}, ge \in Wides \cup {"same"} :
    /\ gn # "same" \/ ge # "same"
    /\ Do([Plain EXCEPT !.gn = Wide(gn), !.ge = Wide(ge)] @@ [g |-> g])

RmA(g) == \E n \in Nodes(heap[g]) : Do([op |-> "rm_node", g |-> g, name |-> n])
DisconnectA(g) == \E k \in Keys(heap[g]) : Do([op |-> "disconnect", g |-> g, key |-> k])
RenderA(g) ==
  /\ Shown(heap[g])
  /\ Do([op |-> "render", g |-> g, auton |-> [n \in Nodes(heap[g]) |-> Auto], autoe |-> [k \in Keys(heap[g]) |-> Auto]])

Needs(G) == DOMAIN G.nc # {} \/ DOMAIN G.es # {} \/ DOMAIN G.ec # {}
Apart(A, B) == DOMAIN A.ns \cap DOMAIN B.ns = {} /\ DOMAIN A.nc \cap DOMAIN B.nc = {} /\ DOMAIN A.es \cap DOMAIN B.es = {} /\ DOMAIN A.ec \cap DOMAIN B.ec = {}
MakeA(g) ==
  \/ "copy" \in Ops /\ Look([op |-> "copy", g |-> g, g2 |-> "c"])
  \/ "build" \in Ops /\ \E ow \in Permits : (Needs(heap[g]) => ow = "y") /\ Look([op |-> "build", g |-> g, g2 |-> "b", ow |-> ow])
  \/ "sum" \in Ops /\ \E h \in Live \ {g} : Apart(Convert(heap[g], "n"), Convert(heap[h], "n")) /\ Look([op |-> "sum", g |-> g, g2 |-> h, g3 |-> "t"])

Init == heap = <<>> /\ TLCSet(Number, 0) /\ last = [id |-> 0, from |-> 0, op |-> [op |-> "start"]]

Next ==
  \/ NewA
  \/ \E g \in Live :
       \/ NodeA(g)
       \/ EdgeA(g)
       \/ "wide" \in Ops /\ WideA(g)
       \/ "rm_node" \in Ops /\ RmA(g)
       \/ "disconnect" \in Ops /\ DisconnectA(g)
       \/ RenderA(g)
       \/ MakeA(g)

Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------------
autoN(G) == [n \in Nodes(G) |-> Auto]
autoE(G) == [k \in Keys(G) |-> Auto]
R(G) == Rendered(G, [auton |-> autoN(G), autoe |-> autoE(G)])

Sound == \A g \in Live : LET G == heap[g] IN DOMAIN G.pn = Nodes(G) /\ DOMAIN G.pe = Keys(G) /\ \A i \in DOMAIN G.edges : {G.edges[i].s, G.edges[i].e} \subseteq Nodes(G)

\* rendering again shows the same
RenderIsStable == \A g \in Live : R(R(heap[g])) = R(heap[g])

\* who wins
Layers ==
  \A g \in Live :
    LET G == heap[g]  H == R(G) IN
    /\ \A n \in Nodes(G) :
         /\ G.gn.k = "dict" => H.pn[n].size = "d"
         /\ n \in DOMAIN G.nc => H.pn[n].main = "c"
         /\ n \in DOMAIN G.ns /\ G.gn.k # "dict" => H.pn[n].size = "o"
         /\ n \notin DOMAIN G.ns \cup DOMAIN G.nc /\ G.gn.k = "style" /\ (G.ow = "y" \/ G.pn[n] = NoLook) => H.pn[n] = All("s")
         /\ n \notin DOMAIN G.ns \cup DOMAIN G.nc /\ G.pn[n] # NoLook /\ (G.gn.k = "none" \/ (G.ow = "n" /\ G.gn.k = "style")) => H.pn[n] = G.pn[n]
         /\ n \notin DOMAIN G.ns \cup DOMAIN G.nc /\ G.pn[n] = NoLook /\ G.gn.k = "none" => H.pn[n] = Auto
    /\ \A k \in Keys(G) :
         /\ G.ge.k = "dict" => H.pe[k].size = "d"
         /\ k \in DOMAIN G.ec => H.pe[k].main = "c"
         /\ k \in DOMAIN G.es /\ G.ge.k # "dict" => H.pe[k].size = "o"
         /\ k \notin DOMAIN G.es \cup DOMAIN G.ec /\ G.pe[k] = NoLook /\ G.ge.k = "none" => H.pe[k] = Auto

\* what is overridden for one node or edge shows there only
OneShows ==
  \A g \in Live :
    LET G == heap[g]
        without(n) == [G EXCEPT !.ns = OnlyOn(@, DOMAIN @ \ {n}), !.nc = OnlyOn(@, DOMAIN @ \ {n})]
    IN  \A n \in DOMAIN G.ns \cup DOMAIN G.nc :
          /\ R(without(n)).pe = R(G).pe
          /\ \A m \in Nodes(G) \ {n} : R(without(n)).pn[m] = R(G).pn[m]

\* a conversion with the same permission looks the same, and keeps looking the same
ConversionLooksTheSame ==
  \A g \in Live : LET G == heap[g]  H == Convert(G, G.ow) IN R(H).pn = R(G).pn /\ R(H).pe = R(G).pe /\ Convert(H, G.ow) = H

\* the sum shows what either shows, once nothing graph-wide is left
SumLooks ==
  \A g, h \in Live :
    LET A == heap[g]  B == heap[h]  S == Sum(A, B) IN
    g # h => /\ Nodes(S) = Nodes(A) \cup Nodes(B) /\ Keys(S) = Keys(A) \cup Keys(B)
             /\ DOMAIN S.ns = (DOMAIN A.ns \cap Nodes(A)) \cup (DOMAIN B.ns \cap Nodes(B))

Op == last'.op
OthersUntouched == [][\A g \in Live : heap'[g] # heap[g] => Op.g = g]_vars
\* overrides stay until another takes their place, whatever happens to the nodes and edges
OverridesStay ==
  [][\A g \in Live : /\ DOMAIN heap[g].ns \subseteq DOMAIN heap'[g].ns /\ DOMAIN heap[g].nc \subseteq DOMAIN heap'[g].nc
                     /\ DOMAIN heap[g].es \subseteq DOMAIN heap'[g].es /\ DOMAIN heap[g].ec \subseteq DOMAIN heap'[g].ec]_vars
=============================================================================
