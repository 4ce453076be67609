--------------------------- MODULE AbstractGraph ---------------------------
(***************************************************************************)
(* The state machine of idin/abstract's graphs: a heap of graphs, the node *)
(* objects removed from them, and one action per public operation, each    *)
(* defined by the operators of GraphOps that trace validation uses too.    *)
(*                                                                         *)
(* TLC explores it exhaustively within the constants, checks the           *)
(* invariants and action properties below, and (Emit) prints every         *)
(* transition it finds, together with a path leading to it: the replay     *)
(* drives the real code through each of them.                              *)
(***************************************************************************)
EXTENDS GraphOps, Json

CONSTANTS
  Graphs,     \* graphs that exist from the start
  Copies,     \* graphs that copying may create
  Names, Ids, Labs, Vals, Stys,
  Pols,       \* duplicate policies used
  Hows,       \* "graph" (methods), "ctor" (constructors)
  Ops,        \* operations that are part of the model
  Watch,      \* operations whose transitions are printed
  MaxNodes, MaxEdges, MaxGone, MaxMarked,
  Overwrite,  \* style overwriting allowed?
  Dirs, Types,
  Emit

VARIABLES
  heap,   \* graph -> its state
  gone,   \* removed node objects, the one removed last at the end
  last    \* [id, from, op]: the number of this state, the state it was reached from and how.  Hidden by View.
vars == <<heap, gone, last>>
View == <<heap, gone>>

NoSet == [strict |-> FALSE, ord |-> FALSE, hdr |-> "-"]
Plain == [lab |-> None, val |-> None, sty |-> NoStyle, par |-> <<>>]
Attrs == [lab : Labs, val : Vals, sty : Stys, par : {<<>>}]

Live == DOMAIN heap

\* the objects of a graph that carry attributes
PlainEdge(x) == [s |-> x.s, e |-> x.e, r |-> x.r, lab |-> None, val |-> None, sty |-> NoStyle, frz |-> FALSE, par |-> <<>>]
Marked(g, G) == {<<g, n>> : n \in {m \in NodeSet(G) : G.na[m] # NewAttrs(Plain)}}
                \cup {<<g, k>> : k \in {m \in EdgeSet(G) : G.ea[m] # PlainEdge(G.ea[m])}}

\* bounds of the exploration, on the heap reached
Within(H) == /\ \A g \in DOMAIN H : Len(H[g].nodes) <= MaxNodes /\ Cardinality(EdgeSet(H[g])) <= MaxEdges
             /\ Cardinality(UNION {Marked(g, H[g]) : g \in DOMAIN H}) <= MaxMarked

\* numbers for states, in the order they are generated (needs one worker); only the printing depends on it
Number == 1
NextNumber == TLCSet(Number, TLCGet(Number) + 1)
Reached(e) == NextNumber /\ last' = [id |-> TLCGet(Number), from |-> last.id, op |-> e]

Show(e, out) == (Emit /\ e.op \in Watch) => PrintT("@@" \o ToJson([at |-> last.id, e |-> e, out |-> out]))
\* an "invariant", so that every distinct state is announced once
Announced == Emit => PrintT("##" \o ToJson([id |-> last.id, from |-> last.from, op |-> last.op, h |-> heap]))

\* a call on graph e.g with outcome R.  A refused call leads nowhere new.
Call(e, R) ==
  /\ Show(e, R.out)
  /\ IF R.out \in {"ok", "warn"} /\ R.post # heap[e.g] /\ Within([heap EXCEPT ![e.g] = R.post])
     THEN heap' = [heap EXCEPT ![e.g] = R.post] /\ Reached(e)
     ELSE UNCHANGED <<heap, last>>

Moved(g, R) == R.out \in {"ok", "warn"} /\ Within([heap EXCEPT ![g] = R.post])
Forget(q) == IF Len(q) > MaxGone THEN SubSeq(q, Len(q) - MaxGone + 1, Len(q)) ELSE q

AddNodeA(g) ==
  \E n \in Names, a \in Attrs, pol \in Pols, how \in Hows :
    /\ n \in NodeSet(heap[g]) \/ pol = "ignore"
    /\ Call([op |-> "add_node", g |-> g, name |-> n, a |-> a, pol |-> pol, how |-> how, kind |-> "ok"],
            AddNode(heap[g], n, a, pol, how, "ok", Overwrite))
    /\ UNCHANGED gone

AddObjA(g) ==
  \E j \in DOMAIN gone :
    LET R == AddObject(heap[g], gone[j].name, "none", gone[j].at)
    IN  /\ Call([op |-> "add_obj", g |-> g, name |-> gone[j].name, back |-> Len(gone) - j + 1, at |-> gone[j].at], R)
        /\ gone' = IF Moved(g, R) THEN SubSeq(gone, 1, j - 1) \o SubSeq(gone, j + 1, Len(gone)) ELSE gone

RmNodeA(g) ==
  \E n \in NodeSet(heap[g]) :
    LET R == RemoveNode(heap[g], n) IN
    /\ Call([op |-> "rm_node", g |-> g, name |-> n], R)
    /\ gone' = Forget(Append(gone, [name |-> n, at |-> heap[g].na[n]]))

StripA(g) ==
  \E n \in NodeSet(heap[g]) :
    /\ Call([op |-> "strip", g |-> g, name |-> n], Strip(heap[g], n))
    /\ UNCHANGED gone

ConnectA(g) ==
  \E s \in Names, e \in Names, r \in Ids, a \in Attrs, pol \in Pols, how \in Hows :
    /\ Key(s, e, r) \in EdgeSet(heap[g]) \/ pol = "ignore"
    /\ {s, e} \subseteq NodeSet(heap[g]) \/ how = "graph"
    /\ Call([op |-> "connect", g |-> g, s |-> s, e |-> e, r |-> r, a |-> a, pol |-> pol, how |-> how],
            Connect(heap[g], s, e, r, a, pol, how, Overwrite))
    /\ UNCHANGED gone

DisconnectA(g) ==
  \E k \in EdgeSet(heap[g]), how \in {"self", "graph"} :
    /\ Call([op |-> "disconnect", g |-> g, key |-> k, stale |-> FALSE, how |-> how], Disconnect(heap[g], k))
    /\ UNCHANGED gone

Objects(g) == ({"n"} \X NodeSet(heap[g])) \cup ({"e"} \X EdgeSet(heap[g]))

FreezeA(g) ==
  \E x \in Objects(g), on \in BOOLEAN :
    /\ Call([op |-> "freeze", g |-> g, c |-> x[1], x |-> x[2], on |-> on], SetFrozen(heap[g], x[1], x[2], on))
    /\ UNCHANGED gone

SetA(g) ==
  \E x \in Objects(g) :
    /\ \/ \E v \in Vals : Call([op |-> "set", g |-> g, c |-> x[1], x |-> x[2], f |-> "val", v |-> v], SetValue(heap[g], x[1], x[2], v))
       \/ \E v \in Labs : Call([op |-> "set", g |-> g, c |-> x[1], x |-> x[2], f |-> "lab", v |-> v], SetLabel(heap[g], x[1], x[2], v))
       \/ \E v \in Stys \ {NoStyle} :
            Call([op |-> "set", g |-> g, c |-> x[1], x |-> x[2], f |-> "sty", v |-> v], SetStyle(heap[g], x[1], x[2], v, Overwrite))
    /\ UNCHANGED gone

\* removed nodes are still objects: their labels and values can be set, and frozen ones stay protected
LooseA(g) ==
  \E j \in DOMAIN gone :
    \E f \in {"val", "lab", "frz"} :
      \E v \in (IF f = "val" THEN Vals ELSE IF f = "lab" THEN Labs ELSE {"y", "n"}) :
        LET R == SetLoose(gone[j].at, f, v)
            e == [op |-> "gset", g |-> g, back |-> Len(gone) - j + 1, f |-> f, v |-> v]
        IN  /\ Show(e, R.out)
            /\ UNCHANGED heap
            /\ IF R.at # gone[j].at THEN gone' = [gone EXCEPT ![j].at = R.at] /\ Reached(e) ELSE UNCHANGED <<gone, last>>

ParamA(g) ==
  \E x \in Objects(g), v \in Vals \ {None} :
    /\ Call([op |-> "set", g |-> g, c |-> x[1], x |-> x[2], f |-> "p", v |-> v], SetParam(heap[g], x[1], x[2], "p", v))
    /\ UNCHANGED gone

RenderA(g) ==
  /\ Call([op |-> "render", g |-> g], Stylize(heap[g]))
  /\ UNCHANGED gone

\* ----- operations on two graphs
CopyA(g) ==
  \E h \in Copies \ Live :
    LET e == [op |-> "copy", g |-> g, g2 |-> h] IN
    /\ Show(e, "ok")
    /\ heap' = (h :> heap[g]) @@ heap
    /\ Reached(e)
    /\ UNCHANGED gone

\* the operations that make a graph we do not follow, and the questions
LookA(g) ==
  /\ \/ /\ "filter" \in Ops
        /\ \E S \in SUBSET NodeSet(heap[g]), d \in Dirs, t \in Types :
             Show([op |-> "filter", g |-> g, g2 |-> "f", names |-> SelectSeq(heap[g].nodes, LAMBDA n : n \in S), dir |-> d, typ |-> t], "ok") /\ UNCHANGED vars
     \/ "build" \in Ops /\ Show([op |-> "build", g |-> g, g2 |-> "b"], "ok") /\ UNCHANGED vars
     \/ "copy1" \in Ops /\ Show([op |-> "copy1", g |-> g, g2 |-> "c"], "ok") /\ UNCHANGED vars
     \/ "query" \in Ops /\ Show([op |-> "query", g |-> g], "ok") /\ UNCHANGED vars
     \/ "text" \in Ops /\ Show([op |-> "text", g |-> g], "ok") /\ UNCHANGED vars
     \/ "cmp" \in Ops /\ Show([op |-> "cmp", g |-> g], "ok") /\ UNCHANGED vars
     \/ \E h \in Live \ {g} :
          \/ "sum" \in Ops /\ Show([op |-> "sum", g |-> g, g2 |-> h, g3 |-> "t"], "ok") /\ UNCHANGED vars
          \/ "sim" \in Ops /\ Show([op |-> "sim", g |-> g, g2 |-> h], "ok") /\ UNCHANGED vars
          \/ "append_graph" \in Ops /\ Show([op |-> "append_graph", g |-> g, g2 |-> h], AppendDesc(heap[g], DescNodes(heap[h]), DescEdges(heap[h]), Overwrite).out) /\ UNCHANGED vars

Init == /\ heap = [g \in Graphs |-> Empty(NoSet)]
        /\ gone = <<>>
        /\ TLCSet(Number, 0)
        /\ last = [id |-> 0, from |-> 0, op |-> [op |-> "start"]]

Next == \E g \in Live :
  \/ "add_node" \in Ops /\ AddNodeA(g)
  \/ "add_obj" \in Ops /\ AddObjA(g)
  \/ "rm_node" \in Ops /\ RmNodeA(g)
  \/ "strip" \in Ops /\ StripA(g)
  \/ "connect" \in Ops /\ ConnectA(g)
  \/ "disconnect" \in Ops /\ DisconnectA(g)
  \/ "freeze" \in Ops /\ FreezeA(g)
  \/ "set" \in Ops /\ SetA(g)
  \/ "param" \in Ops /\ ParamA(g)
  \/ "gset" \in Ops /\ LooseA(g)
  \/ "render" \in Ops /\ RenderA(g)
  \/ "copy" \in Ops /\ CopyA(g)
  \/ LookA(g)

Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------------
\* G01
AlwaysConsistent == \A g \in Live : Consistent(heap[g])

\* the operation just performed, if the state moved
Moves == last' # last
Op == last'.op

Survivors(a, b) == SelectSeq(a, LAMBDA x : x \in Range(b))
Both(P, Q) == NodeSet(P) \cap NodeSet(Q)
BothE(P, Q) == EdgeSet(P) \cap EdgeSet(Q)

\* G01: only what was named goes, together with the edges that touch it
OnlyTheNamedGoes ==
  [][\A g \in Live :
       LET P == heap[g]  Q == heap'[g] IN
       /\ NodeSet(P) \ NodeSet(Q) \subseteq (IF Moves /\ Op.op = "rm_node" /\ Op.g = g THEN {Op.name} ELSE {})
       /\ \A k \in EdgeSet(P) \ EdgeSet(Q) :
            Moves /\ Op.g = g /\ (\/ Op.op \in {"rm_node", "strip"} /\ Op.name \in {P.ea[k].s, P.ea[k].e}
                                  \/ Op.op = "disconnect" /\ Op.key = k)]_vars

\* G02: what was there keeps its place
OrderKept ==
  [][\A g \in Live :
       LET P == heap[g]  Q == heap'[g] IN
       /\ Survivors(P.nodes, Q.nodes) = Survivors(Q.nodes, P.nodes)
       /\ \A n \in Both(P, Q) : /\ Survivors(P.out[n], Q.out[n]) = Survivors(Q.out[n], P.out[n])
                                /\ Survivors(P.inn[n], Q.inn[n]) = Survivors(Q.inn[n], P.inn[n])]_vars

\* G02: an addition concerns one node or one edge
OneObjectChanges ==
  [][(Moves => Op.op # "render") => \A g \in Live :
       LET P == heap[g]  Q == heap'[g] IN
       /\ Cardinality({n \in Both(P, Q) : P.na[n] # Q.na[n]} \cup (NodeSet(Q) \ NodeSet(P)))
          + Cardinality({k \in BothE(P, Q) : P.ea[k] # Q.ea[k]} \cup (EdgeSet(Q) \ EdgeSet(P))) <= 1]_vars

\* G14
FrozenStable ==
  [][\A g \in Live :
       LET P == heap[g]  Q == heap'[g] IN
       /\ \A n \in Both(P, Q) : P.na[n].frz => Q.na[n].val = P.na[n].val
       /\ \A k \in BothE(P, Q) : P.ea[k].frz => Q.ea[k].val = P.ea[k].val]_vars
\* ... wherever the object is
FrozenStableOutside ==
  [][Len(gone') = Len(gone) =>
     \A j \in DOMAIN gone : (gone[j].at.frz /\ gone'[j].name = gone[j].name /\ (Moves => Op.op = "gset")) => gone'[j].at.val = gone[j].at.val]_vars
StyleStable ==
  [][~Overwrite =>
     \A g \in Live :
       LET P == heap[g]  Q == heap'[g] IN
       /\ \A n \in Both(P, Q) : P.na[n].sty # NoStyle => Q.na[n].sty = P.na[n].sty
       /\ \A k \in BothE(P, Q) : P.ea[k].sty # NoStyle => Q.ea[k].sty = P.ea[k].sty]_vars

\* G13: a rendering changes nothing but looks, gives one to everything, and rendering again changes nothing
NotStyle(G) == [G EXCEPT !.na = [n \in DOMAIN @ |-> [@[n] EXCEPT !.sty = ""]], !.ea = [k \in DOMAIN @ |-> [@[k] EXCEPT !.sty = ""]]]
RenderLaws ==
  \A g \in Live :
    LET G == heap[g]  H == Stylize(G).post IN
    /\ NotStyle(G) = NotStyle(H)
    /\ \A n \in NodeSet(H) : H.na[n].sty # NoStyle /\ (G.na[n].sty # NoStyle => H.na[n].sty = G.na[n].sty)
    /\ \A k \in EdgeSet(H) : H.ea[k].sty # NoStyle /\ (G.ea[k].sty # NoStyle => H.ea[k].sty = G.ea[k].sty)
    /\ Stylize(H).post = H

\* G08: an operation changes the graph it names and no other
OthersUntouched ==
  [][\A g \in Live : heap'[g] # heap[g] => Op.g = g]_vars
CopyIsEqual ==
  [][\A h \in DOMAIN heap' \ Live : heap'[h] = heap[Op.g]]_vars

\* G03-G06: the oracle's notions on every reachable graph
Adj(G) == Children(G)
QueriesAgree ==
  \A g \in Live :
    LET G == heap[g]  ch == Children(G)  pa == Parents(G)  re == ReachFn(ch)  ra == ReachFn(pa)
        rs == RootsOf(re, G.nodes)
    IN  /\ \A n \in NodeSet(G) : re[n] = ReachPlusByPaths(ch, n)
        /\ \A n, m \in NodeSet(G) : (m \in re[n]) = (n \in ra[m])
        /\ RootsCover(re, Range(rs))
        /\ pa = Reverse(ch)

\* G09: include and exclude are complements, and filtering an already filtered graph changes nothing more
FilterLaws ==
  \A g \in Live :
    \A S \in SUBSET NodeSet(heap[g]), d \in Dirs :
      LET G == heap[g]
          A == Filter(G, S, d, "include").post
          B == Filter(G, S, d, "exclude").post
      IN  /\ NodeSet(A) \cup NodeSet(B) = NodeSet(G) /\ NodeSet(A) \cap NodeSet(B) = {}
          /\ S \subseteq NodeSet(A)
          /\ Consistent(A) /\ Consistent(B)
          /\ EdgeSet(A) = {k \in EdgeSet(G) : {G.ea[k].s, G.ea[k].e} \subseteq NodeSet(A)}
          /\ Filter(A, S, d, "include").post = A

\* G10: describing a graph and building it again gives the same graph (frozen flags and extra parameters apart)
Bare(x) == [x EXCEPT !.frz = FALSE, !.par = <<>>]
BareGraph(G) == [nodes |-> G.nodes, out |-> G.out, na |-> [n \in NodeSet(G) |-> Bare(G.na[n])], ea |-> [k \in EdgeSet(G) |-> Bare(G.ea[k])]]
RoundTrip ==
  \A g \in Live :
    LET R == AppendDesc(Empty(NoSet), DescNodes(heap[g]), DescEdges(heap[g]), FALSE)
    IN  /\ R.out = "ok"
        /\ Consistent(R.post)
        /\ BareGraph(R.post) = BareGraph(heap[g])

\* G11: the sum of two graphs has the nodes and edges of either, and adding nothing changes nothing
Join(x, y) == IF x = None THEN y ELSE IF y = None THEN x ELSE x \o "+" \o y
SumLaws ==
  \A g, h \in Live :
    LET A == heap[g]  B == heap[h]
        sn == SumNodes(A, B, Join)  se == SumEdges(A, B, Join)
    IN  /\ DOMAIN sn = NodeSet(A) \cup NodeSet(B)
        /\ DOMAIN se = EdgeSet(A) \cup EdgeSet(B)
        /\ \A k \in DOMAIN se : se[k].s \in DOMAIN sn /\ se[k].e \in DOMAIN sn /\ k = Key(se[k].s, se[k].e, se[k].r)
        /\ SumNodes(A, Empty(NoSet), Join) = [n \in NodeSet(A) |-> Bare(A.na[n])]
=============================================================================
