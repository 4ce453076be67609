------------------------------ MODULE GraphOps ------------------------------
(***************************************************************************)
(* What every public operation of idin/abstract's Graph does to a graph.   *)
(*                                                                         *)
(* A graph is a record                                                     *)
(*   nodes : sequence of node names, in listing order                      *)
(*   na    : name -> [lab, val, sty, frz, par]        (par: key -> value)  *)
(*   out   : name -> sequence of edge keys leaving it                      *)
(*   inn   : name -> sequence of edge keys entering it                     *)
(*   ea    : key -> [s, e, r, lab, val, sty, frz, par]                     *)
(*   set   : [strict, ord, hdr]            the settings the DOT head shows *)
(* Names, ids, labels, values and styles are opaque tokens (strings);      *)
(* "n" is "none given" for labels, values, ids, "-" is "no style".         *)
(*                                                                         *)
(* An operator Xxx(G, args) yields [out, post] where out is                *)
(*   "ok"    the call succeeds and the graph becomes post                  *)
(*   "warn"  the same, and a warning is emitted                            *)
(*   "raise" the call raises and the graph stays post (= G)                *)
(*   "part"  the call raises; the object called dup may have taken the     *)
(*           attributes that were not refused                              *)
(* These operators are used, unchanged, by the exhaustive model            *)
(* (AbstractGraph), by the generated replays and by trace validation       *)
(* (GraphTrace): one source of truth.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Digraph

None == "n"
NoStyle == "-"
BadStyle == "!"     \* something that is no style; never accepted

Key(s, e, r) == s \o ">" \o e \o "#" \o r

Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
RemoveFromSeq(q, S) == SelectSeq(q, LAMBDA x : x \notin S)
With(f, x, v) == (x :> v) @@ f

NodeSet(G) == Range(G.nodes)
EdgeSet(G) == DOMAIN G.ea

Empty(set) == [nodes |-> <<>>, na |-> <<>>, out |-> <<>>, inn |-> <<>>, ea |-> <<>>, set |-> set]

Ok(G)     == [out |-> "ok", post |-> G]
Warn(G)   == [out |-> "warn", post |-> G]
Raise(G)  == [out |-> "raise", post |-> G]
Part(G)   == [out |-> "part", post |-> G]

\* ----- derived views
EdgesFrom(G, n) == {k \in EdgeSet(G) : G.ea[k].s = n}
EdgesTo(G, n)   == {k \in EdgeSet(G) : G.ea[k].e = n}
Children(G) == [n \in NodeSet(G) |-> {G.ea[G.out[n][i]].e : i \in DOMAIN G.out[n]}]
Parents(G)  == [n \in NodeSet(G) |-> {G.ea[G.inn[n][i]].s : i \in DOMAIN G.inn[n]}]

\* ----- G01: consistency of edges and endpoints, on the modelled state
Consistent(G) ==
  /\ NoDup(G.nodes)
  /\ DOMAIN G.na = NodeSet(G) /\ DOMAIN G.out = NodeSet(G) /\ DOMAIN G.inn = NodeSet(G)
  /\ \A n \in NodeSet(G) :
       /\ NoDup(G.out[n]) /\ NoDup(G.inn[n])
       /\ Range(G.out[n]) = EdgesFrom(G, n)
       /\ Range(G.inn[n]) = EdgesTo(G, n)
  /\ \A k \in EdgeSet(G) :
       /\ G.ea[k].s \in NodeSet(G) /\ G.ea[k].e \in NodeSet(G)
       /\ k = Key(G.ea[k].s, G.ea[k].e, G.ea[k].r)

\* ----- attributes
NewAttrs(a) == [lab |-> a.lab, val |-> a.val, sty |-> a.sty, frz |-> FALSE, par |-> a.par]
\* updating an existing object: only what is supplied; a style is refused when one is there and may not be
\* overwritten, a value is refused while frozen
StyleRefused(x, a, ow) == a.sty = BadStyle \/ (a.sty # NoStyle /\ x.sty # NoStyle /\ ~ow)
ValueRefused(x, a) == a.val # None /\ x.frz
Updated(x, a, ow) ==
  [x EXCEPT !.lab = IF a.lab = None THEN @ ELSE a.lab,
            !.val = IF a.val = None \/ x.frz THEN @ ELSE a.val,
            !.sty = IF a.sty = NoStyle \/ StyleRefused(x, a, ow) THEN @ ELSE a.sty]

\* ----- nodes
AddNewNode(G, name, at) ==
  [G EXCEPT !.nodes = Append(@, name),
            !.na = With(@, name, at),
            !.out = With(@, name, <<>>),
            !.inn = With(@, name, <<>>)]

\* a : [lab, val, sty, par], pol : "warn" | "ignore" | "error", how : "graph" | "ctor", kind : "ok" | "bad"
AddNode(G, name, a, pol, how, kind, ow) ==
  IF kind = "bad" THEN Raise(G)
  ELSE IF name \notin NodeSet(G) THEN IF a.sty = BadStyle THEN Raise(G) ELSE Ok(AddNewNode(G, name, NewAttrs(a)))
  ELSE IF how = "ctor" \/ pol = "error" THEN Raise(G)
  ELSE LET x == G.na[name]
           G2 == [G EXCEPT !.na = With(@, name, Updated(x, a, ow))]
       IN  IF StyleRefused(x, a, ow) \/ ValueRefused(x, a) THEN Part(G2)
           ELSE IF pol = "warn" THEN Warn(G2) ELSE Ok(G2)

\* adding a node object: where = "here" (a member of this graph), "none" (removed earlier), "other" (another graph's)
AddObject(G, name, where, at) ==
  CASE where = "here"  -> Ok(G)
    [] where = "other" -> Raise(G)
    [] where = "none"  -> IF name \in NodeSet(G) THEN Raise(G) ELSE Ok(AddNewNode(G, name, at))

RemoveEdges(G, ks) ==
  [G EXCEPT !.out = [n \in DOMAIN @ |-> RemoveFromSeq(@[n], ks)],
            !.inn = [n \in DOMAIN @ |-> RemoveFromSeq(@[n], ks)],
            !.ea = Without(@, ks)]

\* all edges of a node go, the node stays
Strip(G, n) == IF n \in NodeSet(G) THEN Ok(RemoveEdges(G, EdgesFrom(G, n) \cup EdgesTo(G, n))) ELSE Raise(G)

RemoveNodes(G, S) ==
  LET G1 == RemoveEdges(G, {k \in EdgeSet(G) : G.ea[k].s \in S \/ G.ea[k].e \in S})
  IN  [G1 EXCEPT !.nodes = RemoveFromSeq(@, S), !.na = Without(@, S),
                 !.out = Without(@, S), !.inn = Without(@, S)]

RemoveNode(G, name) == IF name \in NodeSet(G) THEN Ok(RemoveNodes(G, {name})) ELSE Raise(G)

\* ----- edges
Connect(G, s, e, r, a, pol, how, ow) ==
  IF s \notin NodeSet(G) \/ e \notin NodeSet(G) THEN Raise(G)
  ELSE LET k == Key(s, e, r) IN
       IF k \notin EdgeSet(G)
       THEN IF a.sty = BadStyle THEN Raise(G)
            ELSE Ok([G EXCEPT !.ea = With(@, k, [s |-> s, e |-> e, r |-> r, lab |-> a.lab, val |-> a.val,
                                            sty |-> a.sty, frz |-> FALSE, par |-> a.par]),
                         !.out = With(@, s, Append(@[s], k)),
                         !.inn = With(@, e, Append(@[e], k))])
       ELSE IF how = "ctor" \/ pol = "error" THEN Raise(G)
       ELSE LET x == G.ea[k]
                G2 == [G EXCEPT !.ea = With(@, k, Updated(x, a, ow))]
            IN  IF StyleRefused(x, a, ow) \/ ValueRefused(x, a) THEN Part(G2)
                ELSE IF pol = "warn" THEN Warn(G2) ELSE Ok(G2)

Disconnect(G, k) == IF k \in EdgeSet(G) THEN Ok(RemoveEdges(G, {k})) ELSE Raise(G)

\* ----- attributes of one object; c : "n" (node) or "e" (edge)
Obj(G, c, x) == IF c = "n" THEN G.na[x] ELSE G.ea[x]
PutObj(G, c, x, v) == IF c = "n" THEN [G EXCEPT !.na = With(@, x, v)] ELSE [G EXCEPT !.ea = With(@, x, v)]
SetFrozen(G, c, x, b) == Ok(PutObj(G, c, x, [Obj(G, c, x) EXCEPT !.frz = b]))
SetValue(G, c, x, v) == IF Obj(G, c, x).frz THEN Raise(G) ELSE Ok(PutObj(G, c, x, [Obj(G, c, x) EXCEPT !.val = v]))
SetLabel(G, c, x, v) == Ok(PutObj(G, c, x, [Obj(G, c, x) EXCEPT !.lab = v]))
SetStyle(G, c, x, v, ow) == IF v = BadStyle \/ (Obj(G, c, x).sty # NoStyle /\ ~ow) THEN Raise(G)
                            ELSE Ok(PutObj(G, c, x, [Obj(G, c, x) EXCEPT !.sty = v]))
SetParam(G, c, x, p, v) == Ok(PutObj(G, c, x, [Obj(G, c, x) EXCEPT !.par = With(@, p, v)]))
\* changing a style object in place always works and concerns only its own node or edge
Restyle(G, c, x, v) == Ok(PutObj(G, c, x, [Obj(G, c, x) EXCEPT !.sty = v]))

\* rendering gives a look to everything that has none, and changes nothing else
AutoStyle == "*"
Stylize(G) ==
  LET look(x) == IF x.sty = NoStyle THEN [x EXCEPT !.sty = AutoStyle] ELSE x
  IN  Ok([G EXCEPT !.na = [n \in DOMAIN @ |-> look(@[n])], !.ea = [k \in DOMAIN @ |-> look(@[k])]])

\* an object that belongs to no graph (any more) keeps its attributes, and its value stays protected while it is frozen
SetLoose(x, f, v) ==
  CASE f = "val" -> IF x.frz THEN [out |-> "raise", at |-> x] ELSE [out |-> "ok", at |-> [x EXCEPT !.val = v]]
    [] f = "lab" -> [out |-> "ok", at |-> [x EXCEPT !.lab = v]]
    [] f = "frz" -> [out |-> "ok", at |-> [x EXCEPT !.frz = (v = "y")]]

\* ----- whole graphs
Selected(G, names, dir) ==
  LET ch == ReachFn(Children(G))
      pa == ReachFn(Parents(G))
  IN  names \cup (IF dir \in {"to", "to_and_from"} THEN UNION {pa[n] : n \in names} ELSE {})
            \cup (IF dir \in {"from", "to_and_from"} THEN UNION {ch[n] : n \in names} ELSE {})

Kept(G, names, dir, typ) ==
  IF typ = "include" THEN Selected(G, names, dir) ELSE NodeSet(G) \ Selected(G, names, dir)

Filter(G, names, dir, typ) ==
  IF names \subseteq NodeSet(G)
  THEN Ok(RemoveNodes(G, NodeSet(G) \ Kept(G, names, dir, typ)))
  ELSE Raise(G)

\* ----- dictionary descriptions: nd : sequence of [name, a], ed : sequence of [s, e, r, a, bad]
RECURSIVE AppendNodes(_, _, _)
AppendNodes(R, nd, ow) ==
  IF nd = <<>> \/ R.out \in {"part", "raise"} THEN R
  ELSE LET r == AddNode(R.post, nd[1].name, nd[1].a, "warn", "graph", "ok", ow)
       IN  AppendNodes(r, Tail(nd), ow)
RECURSIVE AppendEdges(_, _, _)
AppendEdges(R, ed, ow) ==
  IF ed = <<>> \/ R.out \in {"part", "raise"} THEN R
  ELSE IF ed[1].bad THEN [out |-> "raise", post |-> R.post]
  ELSE LET r == Connect(R.post, ed[1].s, ed[1].e, ed[1].r, ed[1].a, "warn", "graph", ow)
       IN  AppendEdges(r, Tail(ed), ow)
\* a description that cannot be added completely raises; how much of it was added is not promised ("part")
AppendDesc(G, nd, ed, ow) ==
  LET rn == AppendNodes(Ok(G), nd, ow)
      re == AppendEdges(rn, ed, ow)
  IN  IF re.out \in {"part", "raise"} THEN Part(re.post) ELSE Ok(re.post)

\* the description of a graph
DescNodes(G) == [i \in DOMAIN G.nodes |->
                   [name |-> G.nodes[i],
                    a |-> [lab |-> G.na[G.nodes[i]].lab, val |-> G.na[G.nodes[i]].val, sty |-> G.na[G.nodes[i]].sty, par |-> <<>>]]]
RECURSIVE FlatOut(_, _)
FlatOut(G, ns) == IF ns = <<>> THEN <<>> ELSE G.out[ns[1]] \o FlatOut(G, Tail(ns))
DescEdges(G) == LET ks == FlatOut(G, G.nodes) IN
                [i \in DOMAIN ks |-> LET x == G.ea[ks[i]] IN
                   [s |-> x.s, e |-> x.e, r |-> x.r, bad |-> FALSE,
                    a |-> [lab |-> x.lab, val |-> x.val, sty |-> x.sty, par |-> <<>>]]]

\* ----- sums.  Add(x, y) combines values; labels and styles: the left one when there is one
Prefer(l, r, absent) == IF l \in absent THEN r ELSE l
MergedAttrs(x, y, F(_, _)) ==
  [lab |-> Prefer(x.lab, y.lab, {None}), val |-> F(x.val, y.val), sty |-> Prefer(x.sty, y.sty, {NoStyle}),
   frz |-> FALSE, par |-> <<>>]
PlainAttrs(x) == [lab |-> x.lab, val |-> x.val, sty |-> x.sty, frz |-> FALSE, par |-> <<>>]
SumNodes(A, B, F(_, _)) ==
  [n \in NodeSet(A) \cup NodeSet(B) |->
     IF n \in NodeSet(A) /\ n \in NodeSet(B) THEN MergedAttrs(A.na[n], B.na[n], F)
     ELSE PlainAttrs(IF n \in NodeSet(A) THEN A.na[n] ELSE B.na[n])]
SumEdges(A, B, F(_, _)) ==
  [k \in EdgeSet(A) \cup EdgeSet(B) |->
     LET m == IF k \in EdgeSet(A) /\ k \in EdgeSet(B) THEN MergedAttrs(A.ea[k], B.ea[k], F)
              ELSE PlainAttrs(IF k \in EdgeSet(A) THEN A.ea[k] ELSE B.ea[k])
         x == IF k \in EdgeSet(A) THEN A.ea[k] ELSE B.ea[k]
     IN  [s |-> x.s, e |-> x.e, r |-> x.r, lab |-> m.lab, val |-> m.val, sty |-> m.sty, frz |-> FALSE, par |-> <<>>]]
=============================================================================
