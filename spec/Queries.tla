------------------------------- MODULE Queries -------------------------------
(***************************************************************************)
(* What a graph must answer to each question, computed from its edges      *)
(* alone.  obs holds the real answers; every operator yields the set of    *)
(* clauses the answers break.                                              *)
(***************************************************************************)
EXTENDS GraphOps

LOCAL FF(name, cond) == IF cond THEN {} ELSE {name}

\* ----- G03: obs.n : name -> [anc, anc2, desc, desc2, nd]
QueryG03(G, obs) ==
  LET ch == Children(G)  pa == Parents(G) IN
  UNION {LET o == obs.n[n]  up == ReachPlus(pa, n)  down == ReachPlus(ch, n) \ {n} IN
         FF("ancestors-are-the-nodes-that-reach-it", Range(o.anc) = up /\ Range(o.anc2) = up)
         \cup FF("ancestors-listed-once", NoDup(o.anc) /\ NoDup(o.anc2))
         \cup FF("descendants-are-the-nodes-it-reaches", Range(o.desc) = down /\ Range(o.desc2) = down)
         \cup FF("descendants-listed-once", NoDup(o.desc) /\ NoDup(o.desc2))
         \cup FF("number-of-descendants", o.nd = Cardinality(down))
         : n \in DOMAIN obs.n}

\* ----- G04: obs.n : name -> [anc, desc], sequences of <<distance, names>>
GroupsAre(groups, layers) ==
  /\ Len(groups) = Len(layers)
  /\ {groups[i][1] : i \in DOMAIN groups} = DOMAIN layers
  /\ \A i \in DOMAIN groups : NoDup(groups[i][2]) /\ Range(groups[i][2]) = layers[groups[i][1]]
QueryG04(G, obs) ==
  LET ch == Children(G)  pa == Parents(G) IN
  UNION {LET o == obs.n[n]  up == LayersWithSelf(pa, n)  down == LayersOthers(ch, n) IN
         FF("ancestor-distances", GroupsAre(o.anc, up) /\ GroupsAre(o.anc2, up))
         \cup FF("descendant-distances", GroupsAre(o.desc, down) /\ GroupsAre(o.desc2, down))
         : n \in DOMAIN obs.n}

\* ----- G05: obs.loop, loop2, loop3 : names; obs.pairs : <<a, b, answers>>; obs.edges : <<key, answer>>
\* in graphs of more than this many nodes loops and roots are known by certificate where there is one
Large == 60
LoopsOf(G, obs, looped, same(_, _)) ==
  LET asked == IF "asked" \in DOMAIN obs THEN Range(obs.asked) ELSE NodeSet(G) IN
  FF("node-in-loop", Range(obs.loop) = looped \cap asked)
  \cup FF("graph-node-in-loop", Range(obs.loop2) = looped \cap asked)
  \cup FF("loop-nodes", Range(obs.loop3) = looped /\ NoDup(obs.loop3))
  \cup FF("same-loop", \A i \in DOMAIN obs.pairs :
             \A j \in DOMAIN obs.pairs[i][3] : obs.pairs[i][3][j] = same(obs.pairs[i][1], obs.pairs[i][2]))
  \cup FF("edge-in-loop", \A i \in DOMAIN obs.edges :
             obs.edges[i][2] = same(G.ea[obs.edges[i][1]].s, G.ea[obs.edges[i][1]].e))
QueryG05(G, obs) ==
  LET ch == Children(G)  pa == Parents(G) IN
  IF Len(G.nodes) > Large /\ Acyclic(ch, G.nodes) THEN LoopsOf(G, obs, {}, LAMBDA a, b : FALSE)
  ELSE IF Len(G.nodes) > Large /\ OneClass(ch, pa, G.nodes[1]) THEN LoopsOf(G, obs, NodeSet(G), LAMBDA a, b : TRUE)
  ELSE LET reach == ReachFn(ch)
       IN  LoopsOf(G, obs, {n \in NodeSet(G) : OnCycle(reach, n)}, LAMBDA a, b : SameLoop(reach, a, b))

\* ----- G06: obs.roots, obs.abs, obs.leaves
QueryG06(G, obs) ==
  LET ch == Children(G)  pa == Parents(G) IN
  (IF Len(G.nodes) > Large /\ Acyclic(ch, G.nodes) THEN FF("roots", obs.roots = Parentless(pa, G.nodes))
   ELSE IF Len(G.nodes) > Large /\ OneClass(ch, pa, G.nodes[1]) THEN FF("roots", obs.roots = <<G.nodes[1]>>)
   ELSE LET reach == ReachFn(ch) IN
        FF("roots", obs.roots = RootsOf(reach, G.nodes))
        \cup FF("roots-cover", RootsCover(reach, Range(obs.roots))))
  \cup FF("absolute-roots", Range(obs.abs) = {n \in NodeSet(G) : pa[n] = {}} /\ NoDup(obs.abs))
  \cup FF("leaves", Range(obs.leaves) = {n \in NodeSet(G) : ch[n] = {}} /\ NoDup(obs.leaves))

\* ----- G07
SetAndOnce(seq, S) == NoDup(seq) /\ Range(seq) = S
QueryG07(G, obs, made) ==
  UNION {LET o == obs.n[n]
             ps == [i \in DOMAIN G.inn[n] |-> G.ea[G.inn[n][i]].s]
             cs == [i \in DOMAIN G.out[n] |-> G.ea[G.out[n][i]].e]
             sib == (UNION {{G.ea[G.out[p][i]].e : i \in DOMAIN G.out[p]} : p \in Range(ps)}) \ {n}
             spo == (UNION {{G.ea[G.inn[c][i]].s : i \in DOMAIN G.inn[c]} : c \in Range(cs)}) \ {n}
         IN  FF("named-as-asked", \A i \in DOMAIN o.same : o.same[i] = n)
             \cup FF("parents", o.par = ps /\ o.par2 = ps)
             \cup FF("children", o.chi = cs /\ o.chi2 = cs)
             \cup FF("siblings", SetAndOnce(o.sib, sib) /\ SetAndOnce(o.sib2, sib))
             \cup FF("co-parents", SetAndOnce(o.spo, spo) /\ SetAndOnce(o.spo2, spo))
             \cup FF("counts", o.num = <<Len(ps), Len(cs), Cardinality(sib), Cardinality(spo), Len(cs)>>)
             \cup FF("has", \A j \in DOMAIN o.has : o.has[j] = <<ps # <<>>, cs # <<>>, sib # {}, spo # {}>>)
             \cup FF("incident-edges", o.edg = <<G.out[n], G.inn[n], G.out[n] \o G.inn[n]>>)
             \cup UNION {LET p == o.rank[j][1]  a == o.rank[j][2] IN
                           IF p \notin Range(ps) THEN FF("rank-under-a-stranger-raises", a < 0)
                           ELSE LET kids == {i \in DOMAIN G.out[p] : made[G.ea[G.out[p][i]].e] < made[n]}
                                IN  FF("child-rank", a = Cardinality(kids))
                         : j \in DOMAIN o.rank}
         : n \in DOMAIN obs.n}

\* ----- G19: the tree text, as its lines; trees are separated by empty lines, which are ignored
\* obs.text : one [root, lines] per root asked; obs.whole : lines of the graph's text; obs.lab : name -> label;
\* obs.roots : the roots the graph reports
\* a machine that walks the text: TreeFrom yields <<lines, expanded>>
Corner == "L "   \* the harness writes the drawing characters as ASCII: corner "L", branch "T", vertical "I"
Branch == "T "

RECURSIVE Tree(_, _, _, _, _), TreeKids(_, _, _, _, _, _)
\* the lines of the tree of n, its first line prefixed by `head`; children are drawn under `ind`
Tree(G, lab, n, head, st) ==
  \* st = [ind, done]
  IF n \in st.done THEN [lines |-> <<head \o lab[n] \o "*">>, done |-> st.done]
  ELSE LET kids == [i \in DOMAIN G.out[n] |-> G.ea[G.out[n][i]].e]
           r == TreeKids(G, lab, kids, 1, st.ind, IF kids = <<>> THEN st.done ELSE st.done \cup {n})
       IN  [lines |-> <<head \o lab[n]>> \o r.lines, done |-> r.done]
TreeKids(G, lab, kids, i, ind, done) ==
  IF i > Len(kids) THEN [lines |-> <<>>, done |-> done]
  ELSE LET last == i = Len(kids)
           r == Tree(G, lab, kids[i], ind \o (IF last THEN Corner ELSE Branch),
                     [ind |-> ind \o (IF last THEN "  " ELSE "I "), done |-> done])
           rest == TreeKids(G, lab, kids, i + 1, ind, r.done)
       IN  [lines |-> r.lines \o rest.lines, done |-> rest.done]

RECURSIVE Forest(_, _, _, _)
Forest(G, lab, roots, done) ==
  IF roots = <<>> THEN <<>>
  ELSE LET r == Tree(G, lab, roots[1], "", [ind |-> "", done |-> done])
       IN  r.lines \o Forest(G, lab, Tail(roots), r.done)

QueryG19(G, obs) ==
  FF("one-tree-per-root-each-node-expanded-once", obs.whole = Forest(G, obs.lab, obs.roots, {}))
  \cup FF("shows-every-node",
           \* lines are traced back to nodes by label, so this part is judged when the labels tell the nodes apart
           Cardinality({obs.lab[n] : n \in NodeSet(G)}) = Cardinality(NodeSet(G)) => Range(obs.shown) = NodeSet(G))
  \cup FF("tree-of-one-node", \A j \in DOMAIN obs.trees :
            obs.trees[j][2] = Tree(G, obs.lab, obs.trees[j][1], "", [ind |-> "", done |-> {}]).lines)
=============================================================================
