----------------------------- MODULE RenderTrace -----------------------------
(***************************************************************************)
(* Trace validation of rendering: G12 (what the DOT text declares) and     *)
(* G13 (what stylizing does).  Histories are recorded like those of        *)
(* GraphTrace; the state kept here is the last observed snapshot of every  *)
(* graph, what was asked for when it was made, and the tooltips given to   *)
(* its objects (they have no accessor, so the specification remembers).    *)
(***************************************************************************)
EXTENDS Integers, GraphOps, Json, TLC

CONSTANTS TraceFile, Prop

Histories == ndJsonDeserialize(TraceFile)

VARIABLES tid, l,
          heap,   \* graph -> last observed snapshot
          tip,    \* node or edge object -> token of its tooltip
          asked   \* graph -> [stylist, conv, dir, attrs]
vars == <<tid, l, heap, tip, asked>>

F(name, cond) == IF cond THEN {} ELSE {name}
Ev == Histories[tid].ev
Txt == Histories[tid].txt        \* token -> text the value shows as
Trim == Histories[tid].trim      \* the same without surrounding white space
Falsy == Range(Histories[tid].falsy)
ConvN == Histories[tid].cnvn     \* text -> converted text   (node labels are converted as text)
ConvE == Histories[tid].cnve     \* token -> converted text  (edge labels are converted as given)

\* ---------------------------------------------------------------------------
\* G12: what the text must declare
NodeLabel(s, conv, n) ==
  LET lab == s.p.na[n].lab
      t == IF lab # None /\ lab \notin Falsy THEN Txt[lab] ELSE Txt[n]
  IN  IF conv THEN ConvN[t] ELSE t
TipOf(o) == IF o \in DOMAIN tip THEN Txt[tip[o]] ELSE ""
NodeDecl(s, conv) == {<<Txt[n], NodeLabel(s, conv, n), TipOf(s.i.n[n].o)>> : n \in NodeSet(s.p)}

EdgeLabel(s, conv, k) ==
  LET x == s.p.ea[k] IN
  IF x.lab # None THEN (IF conv THEN ConvE[x.lab] ELSE Txt[x.lab])
  ELSE IF x.val # None THEN Txt[x.val] ELSE ""
EdgeRow(s, conv, o) ==
  LET k == s.i.e[o].k  x == s.p.ea[k] IN <<Txt[x.s], Txt[x.e], EdgeLabel(s, conv, k), TipOf(o)>>
\* a bag of rows, as a function from row to multiplicity
Bag(rows, of(_)) == LET V == {of(r) : r \in rows} IN [v \in V |-> Cardinality({r \in rows : of(r) = v})]
SeqBag(q) == [v \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = v})]

Upper == [lr |-> "LR", tb |-> "TB", rl |-> "RL", bt |-> "BT", LR |-> "LR", TB |-> "TB", RL |-> "RL", BT |-> "BT"]
SizeText(e) ==
  CASE e.w # "" /\ e.h # "" -> e.w \o "%2C" \o e.h \o "%21"
    [] e.w # "" -> e.w \o "%21"
    [] e.h # "" -> e.h \o "%21"
    [] OTHER -> ""
Has(f, x) == x \in DOMAIN f
Attr(obs, x) == IF Has(obs.attrs, x) THEN obs.attrs[x] ELSE ""

DotG12(e) ==
  LET s == heap[e.g]  a == asked[e.g]  o == e.obs
      dir == Upper[IF e.dir = "" THEN a.dir ELSE e.dir]
  IN  F("graphviz-accepts-it", o.ok)
      \cup (IF ~o.ok THEN {}
            ELSE F("one-declaration-per-node", Len(o.nodes) = Len(s.p.nodes) /\ {o.nodes[i][1] : i \in DOMAIN o.nodes} = {Txt[n] : n \in NodeSet(s.p)})
                 \cup F("node-label-and-tooltip", {<<r[1], r[2], r[3]>> : r \in Range(o.nodes)} = NodeDecl(s, a.conv))
                 \cup F("styles-of-nodes", {<<r[1], r[4]>> : r \in Range(o.nodes)} = {<<Txt[n], e.lookn[n]>> : n \in NodeSet(s.p)})
                 \cup F("styles-of-edges", SeqBag(o.edges) = Bag(DOMAIN s.i.e, LAMBDA x : Append(EdgeRow(s, a.conv, x), e.looke[x])))
                 \cup F("one-declaration-per-edge", SeqBag([i \in DOMAIN o.edges |-> <<o.edges[i][1], o.edges[i][2]>>])
                                                    = Bag(DOMAIN s.i.e, LAMBDA x : <<Txt[s.p.ea[s.i.e[x].k].s], Txt[s.p.ea[s.i.e[x].k].e]>>))
                 \cup F("edge-label-and-tooltip", SeqBag([i \in DOMAIN o.edges |-> SubSeq(o.edges[i], 1, 4)]) = Bag(DOMAIN s.i.e, LAMBDA x : EdgeRow(s, a.conv, x)))
                 \cup F("plain-text-stays-text", o.html = (IF a.html /\ a.label # None THEN 1 ELSE 0))
                 \cup F("directed", o.directed)
                 \cup F("strictness", o.strict = a.strict)
                 \cup F("direction", Attr(o, "rankdir") = (IF dir = "TB" THEN "" ELSE dir))
                 \cup F("size", Attr(o, "size") = SizeText(e))
                 \cup F("padding", Attr(o, "pad") = e.pad)
                 \cup F("graph-attributes", \A x \in DOMAIN a.attrs : Attr(o, x) = (IF a.attrs[x] = None THEN "" ELSE Txt[a.attrs[x]]))
                 \cup F("graph-label", IF a.html /\ a.label # None THEN o.htext = Trim[a.label]
                                                  ELSE Attr(o, "label") = (IF a.label = None THEN "" ELSE Txt[a.label]))
                 \cup F("nothing-extra", o.subgraphs <= 1 /\ o.ports = 0))

CheckG12(e) == IF e.op = "describe" THEN F("description-accepted", e.res.k = "ok")
               ELSE IF e.op = "dot" THEN F("text-is-made", e.res.k = "ok") \cup (IF e.res.k = "ok" THEN DotG12(e) ELSE {}) ELSE {}

\* ---------------------------------------------------------------------------
\* G13: a rendering
NotStyle(p) == [nodes |-> p.nodes, out |-> p.out, inn |-> p.inn, set |-> p.set,
                na |-> [n \in NodeSet(p) |-> [p.na[n] EXCEPT !.sty = ""]],
                ea |-> [k \in EdgeSet(p) |-> [p.ea[k] EXCEPT !.sty = ""]]]
After(e, g) == IF g \in DOMAIN e.post THEN e.post[g] ELSE heap[g]

ParentList(p, n) == [i \in DOMAIN p.inn[n] |-> p.ea[p.inn[n][i]].s]

Starters(p, reach, stylist) ==
  {n \in (IF stylist = "random" THEN NodeSet(p) ELSE LooksStart(reach, Parents(p))) : p.na[n].sty = NoStyle}

CheckG13(e) ==
  IF e.op # "render" THEN {}
  ELSE F("rendering-succeeds", e.res.k = "ok")
       \cup (IF e.res.k # "ok" THEN {}
             ELSE LET pre == heap[e.g].p  s == After(e, e.g)  post == s.p
                      reach == ReachFn(Children(pre))
                      S == Starters(pre, reach, asked[e.g].stylist)
                      K == Len(e.obs.scheme)
                      q == Cardinality(S) \div K
                      cnt == [c \in Range(e.obs.scheme) |-> Cardinality({n \in S : e.obs.main[n] = c})]
                      autoE == {k \in EdgeSet(pre) : pre.ea[k].sty = NoStyle}
                  IN  F("content-as-before", NotStyle(post) = NotStyle(pre))
                      \cup (IF NotStyle(post) # NotStyle(pre) THEN {}
                            ELSE F("everything-styled", /\ \A n \in NodeSet(post) : post.na[n].sty # NoStyle
                                                        /\ \A k \in EdgeSet(post) : post.ea[k].sty # NoStyle)
                                 \cup F("explicit-styles-kept",
                                        /\ \A n \in NodeSet(pre) : pre.na[n].sty # NoStyle => post.na[n].sty = pre.na[n].sty
                                        /\ \A k \in EdgeSet(pre) : pre.ea[k].sty # NoStyle => post.ea[k].sty = pre.ea[k].sty)
                                 \cup F("same-text-again", e.obs.text[1] = e.obs.text[2] /\ e.obs.text[1] = e.obs.text[3])
                                 \cup F("colours-evenly", \A c \in Range(e.obs.scheme) : cnt[c] \in {q, q + 1})
                                 \cup F("starters-take-scheme-colours", \A n \in S : e.obs.main[n] \in Range(e.obs.scheme))
                                 \cup F("same-parents-look-alike",
                                        asked[e.g].stylist = "random" \/
                                        \A n \in NodeSet(pre) \ S : \A m \in NodeSet(pre) \ S :
                                          (/\ pre.na[n].sty = NoStyle /\ pre.na[m].sty = NoStyle
                                           /\ Len(ParentList(pre, n)) > 1 /\ ParentList(pre, n) = ParentList(pre, m))
                                             => post.na[n].sty = post.na[m].sty)
                                 \cup F("edge-look-from-its-own-start-and-value",
                                        \A k \in autoE : k \in DOMAIN e.obs.ref => e.obs.ref[k] = post.ea[k].sty)
                                 \* the arrow grows with a value that is a number (all in thousandths)
                                 \cup F("arrow-in-proportion-to-the-number",
                                        \A k \in autoE : k \in DOMAIN e.obs.num =>
                                          LET d == e.obs.unit * e.obs.num[k] - 1000 * e.obs.arrow[k] IN -1000 < d /\ d < 1000)
                                 \cup F("edges-alike-look-alike",
                                        \A k \in autoE, j \in autoE :
                                          (pre.ea[k].s = pre.ea[j].s /\ pre.ea[k].val = pre.ea[j].val)
                                             => post.ea[k].sty = post.ea[j].sty)))

Verdict(e) ==
  IF ~(\A g \in DOMAIN e.post : e.post[g].ok) THEN {"graph-readable"}
  ELSE IF e.op \in {"dot", "render"} /\ (IF e.g \in DOMAIN heap THEN ~heap[e.g].ok ELSE TRUE) THEN {"graph-readable"}
  ELSE CASE Prop = "G12" -> CheckG12(e)
         [] Prop = "G13" -> CheckG13(e)

\* ---------------------------------------------------------------------------
NextTip(e) ==
  CASE e.op \in {"add_node", "connect"} /\ e.res.k = "ok" /\ e.tip # None
         -> IF e.res.o \in DOMAIN tip THEN tip ELSE With(tip, e.res.o, e.tip)
    [] e.op = "copy" /\ e.res.k = "ok" /\ e.g2 \in DOMAIN e.post /\ e.post[e.g2].ok
         -> LET a == heap[e.g].i  b == e.post[e.g2].i
                objN == {<<b.n[n].o, a.n[n].o>> : n \in DOMAIN b.n \cap DOMAIN a.n}
                objE == {p \in (DOMAIN b.e) \X (DOMAIN a.e) : b.e[p[1]].k = a.e[p[2]].k}
                new == {p \in objN \cup objE : p[2] \in DOMAIN tip}
            IN  [o \in {p[1] : p \in new} |-> tip[(CHOOSE p \in new : p[1] = o)[2]]] @@ tip
    [] OTHER -> tip

NextAsked(e) ==
  CASE e.op = "new" -> With(asked, e.g, [stylist |-> e.stylist, conv |-> e.conv, dir |-> e.gdir, strict |-> e.strict,
                                         attrs |-> e.attrs, label |-> e.glabel, html |-> e.html])
    [] e.op = "load" -> With(asked, e.g, [stylist |-> e.stylist, conv |-> FALSE, dir |-> "LR", strict |-> FALSE,
                                          attrs |-> <<>>, label |-> e.glabel, html |-> FALSE])
    [] e.op = "copy" /\ e.res.k = "ok" -> With(asked, e.g2, asked[e.g])
    \* a description changes what it mentions
    [] e.op = "describe" /\ e.res.k = "ok"
         -> With(asked, e.g, [asked[e.g] EXCEPT !.strict = IF "strict" \in DOMAIN e THEN e.strict ELSE @,
                                                !.dir = IF "gdir" \in DOMAIN e THEN e.gdir ELSE @,
                                                !.label = IF "glabel" \in DOMAIN e THEN e.glabel ELSE @,
                                                !.attrs = e.attrs @@ @])
    [] OTHER -> asked

Init == tid \in DOMAIN Histories /\ l = 1 /\ heap = <<>> /\ tip = <<>> /\ asked = <<>>

Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l]  bad == Verdict(e)
           IN  /\ (bad # {}) => PrintT(<<"CLAUSES", Histories[tid].id, l, e.op, bad>>)
               /\ heap' = e.post @@ heap
               /\ tip' = IF Prop = "G12" THEN NextTip(e) ELSE tip
               /\ asked' = NextAsked(e)
        /\ l' = l + 1
        /\ tid' = tid

Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Histories[n].ev) + 1 + Total(n - 1)
AllConsumed == TLCGet("stats").distinct = Total(Len(Histories))
=============================================================================
