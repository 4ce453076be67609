----------------------------- MODULE GraphTrace -----------------------------
(***************************************************************************)
(* Trace validation: is every recorded execution of the real code a        *)
(* behaviour the specification allows?                                     *)
(*                                                                         *)
(* The trace file holds one recorded history per line; there is one        *)
(* initial state per history.  Each step consumes one event, computes with *)
(* GraphOps what the call had to do to the graphs seen before it, compares *)
(* that with what was observed, prints the names of the clauses that       *)
(* fail, and goes on from the observed graphs, so that the rest of the     *)
(* history is judged too.  Verdicts are total: a step is always possible.  *)
(***************************************************************************)
EXTENDS GraphOps, Queries, Json, TLC

CONSTANTS TraceFile, Prop

Histories == ndJsonDeserialize(TraceFile)

VARIABLES tid,   \* which history
          l,     \* position in it
          heap,  \* graph -> last observed snapshot [ok, p, i]
          ow,    \* graph -> may styles be overwritten? "y" | "n" | "u" (unknown)
          made,  \* node object -> ordinal of its creation (copies inherit it)
          loose  \* object that left its graph -> the attributes it was last seen with
vars == <<tid, l, heap, ow, made, loose>>

F(name, cond) == IF cond THEN {} ELSE {name}

Ev == Histories[tid].ev

\* ---------------------------------------------------------------------------
\* G01: identities, ownership and listings of one snapshot
WF(s) ==
  LET p == s.p  i == s.i
      names == NodeSet(p)
      outO == UNION {Range(i.out[n].o) : n \in names}
      innO == UNION {Range(i.inn[n].o) : n \in names}
      allO == outO \cup innO
  IN  F("accessors-work", i.acc = <<>>)
      \cup F("nodes-listed-once", i.listed = [j \in DOMAIN p.nodes |-> <<p.nodes[j], i.n[p.nodes[j]].o>>])
      \cup F("node-under-its-own-name", \A n \in names : i.n[n].nm = n /\ i.n[n].id = n)
      \cup F("node-belongs-to-graph", \A n \in names : i.n[n].g = i.me)
      \cup F("edges-and-endpoints-agree", Consistent(p))
      \cup F("same-edge-at-both-ends", outO = innO /\ Cardinality(allO) = Cardinality(EdgeSet(p)))
      \cup F("edge-under-its-own-key",
             \A n \in names : \A j \in DOMAIN p.out[n] : i.e[i.out[n].o[j]].k = p.out[n][j])
      \cup F("edge-under-its-own-key-in",
             \A n \in names : \A j \in DOMAIN p.inn[n] : i.e[i.inn[n].o[j]].k = p.inn[n][j])
      \cup F("edge-ends-are-the-graphs-nodes",
             /\ \A n \in names : \A j \in DOMAIN i.out[n].o : i.e[i.out[n].o[j]].so = i.n[n].o
             /\ \A n \in names : \A j \in DOMAIN i.inn[n].o : i.e[i.inn[n].o[j]].eo = i.n[n].o)
      \cup F("edge-belongs-to-graph", \A o \in allO : i.e[o].g = i.me)
      \cup F("edges-listed-once", NoDup(i.edges) /\ Range(i.edges) = allO)
      \cup F("edges-dict", Range(i.ed) = {<<i.e[o].k, o>> : o \in allO} /\ NoDup(i.ed))
      \cup F("node-listings", \A n \in names : /\ i.out[n].l = <<i.out[n].o, p.out[n], i.out[n].o>>
                                               /\ i.inn[n].l = <<i.inn[n].o, p.inn[n], i.inn[n].o>>
                                               /\ NoDup(i.n[n].all)
                                               /\ Range(i.n[n].all) = Range(i.out[n].o) \cup Range(i.inn[n].o))

      \cup F("has-a-style-or-not", /\ \A n \in names : i.n[n].hs = (i.n[n].st # "-")
                                  /\ \A o \in allO : i.e[o].hs = (i.e[o].st # "-"))
      \cup F("styles-listed", /\ NoDup(i.ns) /\ Range(i.ns) = {<<n, i.n[n].st>> : n \in {m \in names : i.n[m].st # "-"}}
                             /\ NoDup(i.es) /\ Range(i.es) = {<<i.e[o].k, i.e[o].st>> : o \in {x \in allO : i.e[x].st # "-"}})

\* ---------------------------------------------------------------------------
\* what the event had to do to its target graph
OwOf(g) == IF g \in DOMAIN ow THEN ow[g] ELSE "u"
CanOw(g) == OwOf(g) = "y"

\* where a node object being added currently belongs
Where(e, i) == IF e.og = "-" THEN "none" ELSE IF e.og = i.me THEN "here" ELSE "other"

Pol(e) == IF e.pol = "default" THEN "warn" ELSE e.pol

Raised(e) == e.res.k = "exc"

\* a node given by an object of the same name that is not the graph's own: it stands for its name, or is refused
Foreign(e) == \/ e.op = "rm_node" /\ "by" \in DOMAIN e /\ e.by = "foreign"
              \/ e.op = "connect" /\ "sb" \in DOMAIN e /\ "foreign" \in {e.sb, e.eb}
              \/ e.op = "filter" /\ "foreign" \in Range(e.by)

NoPred == [out |-> "free", post |-> <<>>]

Pred0(e, s) ==
  LET G == s.p IN
  CASE e.op = "add_node"   -> AddNode(G, e.name, e.a, Pol(e), e.how, e.kind, CanOw(e.g))
    [] e.op = "add_obj"    -> AddObject(G, e.name, Where(e, s.i), e.at)
    [] e.op = "rm_node"    -> RemoveNode(G, e.name)
    [] e.op = "strip"      -> Strip(G, e.name)
    [] e.op = "connect"    -> Connect(G, e.s, e.e, e.r, e.a, Pol(e), e.how, CanOw(e.g))
    [] e.op = "disconnect" -> IF e.stale THEN Raise(G) ELSE Disconnect(G, e.key)
    [] e.op = "freeze"     -> SetFrozen(G, e.c, e.x, e.on)
    [] e.op = "set" /\ e.f = "val" -> SetValue(G, e.c, e.x, e.v)
    [] e.op = "set" /\ e.f = "lab" -> SetLabel(G, e.c, e.x, e.v)
    [] e.op = "set" /\ e.f = "sty" -> SetStyle(G, e.c, e.x, e.v, CanOw(e.g))
    [] e.op = "set" /\ e.f \in {"p", "q"} -> SetParam(G, e.c, e.x, e.f, e.v)
    [] e.op = "append"     -> AppendDesc(G, e.nd, e.ed, CanOw(e.g))
    [] e.op = "append_graph" -> LET S == heap[e.g2].p
                                    R == AppendDesc(G, DescNodes(S), DescEdges(S), CanOw(e.g))
                                IN  [R EXCEPT !.post.set = S.set]
    [] OTHER -> NoPred

Pred(e, s) ==
  LET r == Pred0(e, s) IN IF Foreign(e) /\ Raised(e) /\ r.out # "part" THEN Raise(s.p) ELSE r

\* what the call observed of its target graph afterwards (unchanged graphs are not logged again)
After(e, g) == IF g \in DOMAIN e.post THEN e.post[g] ELSE heap[g]

Outcome(e, r) ==
  CASE r.out = "ok"    -> e.res.k = "ok"
    [] r.out = "warn"  -> e.res.k = "ok"
    [] r.out = "raise" -> Raised(e)
    [] r.out = "part"  -> Raised(e)
    [] OTHER -> e.res.k # "timeout"

Structure(G) == [nodes |-> G.nodes, out |-> G.out, inn |-> G.inn,
                 ends |-> [k \in EdgeSet(G) |-> <<G.ea[k].s, G.ea[k].e, G.ea[k].r>>]]
Content(G) == [st |-> Structure(G), na |-> G.na, ea |-> G.ea]

Targets(e) ==
  CASE e.op \in {"copy", "filter", "build"} -> {e.g2}
    [] e.op = "sum" -> {e.g3}
    [] e.op = "load" -> DOMAIN e.post
    [] e.op \in {"query", "cmp", "sim", "in", "gset"} -> {}
    [] OTHER -> {e.g}

\* the graph this event made is new: none of its nodes, edges or style objects is any other graph's
ObjectsOf(s) ==
  LET i == s.i IN {i.me} \cup {i.n[n].o : n \in DOMAIN i.n} \cup DOMAIN i.e
StylesOf(s) == ({s.i.n[n].st : n \in DOMAIN s.i.n} \cup {s.i.e[o].st : o \in DOMAIN s.i.e}) \ {"-"}
Fresh(e, g) ==
  \A h \in DOMAIN heap : heap[h].ok =>
     /\ ObjectsOf(heap[h]) \cap ObjectsOf(e.post[g]) = {}
     /\ StylesOf(heap[h]) \cap StylesOf(e.post[g]) = {}

StrictOrd(s) == <<s.strict, s.ord>>

\* ---------------------------------------------------------------------------
ReadableAll(e) == \A g \in DOMAIN e.post : e.post[g].ok

Mutators == {"add_node", "add_obj", "rm_node", "strip", "connect", "disconnect"}

CheckG01(e) ==
  UNION {WF(e.post[g]) : g \in DOMAIN e.post}
  \cup (IF e.op \notin Mutators THEN {}
        ELSE LET pre == heap[e.g]  r == Pred(e, pre)  post == After(e, e.g)
             IN  (IF r.out \in {"ok", "warn"}
                  THEN F("change-succeeds", e.res.k = "ok")
                       \cup F("exactly-this-change",
                              IF e.op \in {"rm_node", "strip", "disconnect", "add_obj"} THEN Content(post.p) = Content(r.post)
                              ELSE Structure(post.p) = Structure(r.post))
                  ELSE F("refused-change-changes-nothing", Structure(post.p) = Structure(pre.p))
                       \cup F("terminates", e.res.k # "timeout"))
                 \cup F("other-graphs-untouched", \A g \in DOMAIN e.post \ {e.g} : Structure(e.post[g].p) = Structure(heap[g].p))
                 \cup (IF e.g \in DOMAIN e.gone
                       THEN F("removed-objects-belong-to-no-graph",
                              /\ \A j \in DOMAIN e.gone[e.g].n : e.gone[e.g].n[j][2] = "-"
                              /\ \A j \in DOMAIN e.gone[e.g].e : e.gone[e.g].e[j][2] = "-")
                       ELSE {})
                 \cup F("surviving-objects-stay", \A n \in DOMAIN pre.i.n \cap DOMAIN post.i.n : pre.i.n[n].o = post.i.n[n].o)
                 \cup (IF e.op = "add_obj" /\ r.out = "ok"
                       THEN F("the-object-itself-is-added", e.name \in DOMAIN post.i.n /\ post.i.n[e.name].o = e.o)
                       ELSE {}))

\* the attributes an object may have after a partly refused update
BetweenOldAndNew(x, y, z) ==
  /\ z.lab \in {x.lab, y.lab} /\ z.val \in {x.val, y.val} /\ z.sty \in {x.sty, y.sty}
  /\ z.frz = x.frz /\ z.par = x.par

CheckG02(e) ==
  IF e.op \notin {"add_node", "connect"} THEN {}
  ELSE LET pre == heap[e.g]  r == Pred(e, pre)  post == After(e, e.g)
           isN == e.op = "add_node"
           key == IF isN THEN e.name ELSE Key(e.s, e.e, e.r)
           had == IF isN THEN key \in NodeSet(pre.p) ELSE key \in EdgeSet(pre.p)
       IN  IF r.out = "part"
           THEN F("update-refused", Raised(e))
                \cup F("only-the-named-object-changes",
                       /\ Structure(post.p) = Structure(pre.p)
                       /\ \A n \in NodeSet(pre.p) \ {IF isN THEN key ELSE ""} : post.p.na[n] = pre.p.na[n]
                       /\ \A k \in EdgeSet(pre.p) \ {IF isN THEN "" ELSE key} : post.p.ea[k] = pre.p.ea[k])
           ELSE IF r.out = "raise"
           THEN F("refusal-raises", Raised(e))
                \cup F("refusal-changes-nothing", DOMAIN e.post = {})
           ELSE F("request-succeeds", e.res.k = "ok")
                \cup F("warns-exactly-when-asked", e.res.k = "ok" => ((e.res.w > 0) = (r.out = "warn")))
                \cup F("listed-in-order-added", post.p.nodes = r.post.nodes /\ post.p.out = r.post.out /\ post.p.inn = r.post.inn)
                \cup F("exactly-the-given-attributes", post.p.na = r.post.na /\ post.p.ea = r.post.ea)
                \cup (IF e.how = "ctor" \/ e.res.k # "ok" THEN {}
                      ELSE F("returns-the-one-object",
                             IF isN THEN key \in DOMAIN post.i.n /\ e.res.o = post.i.n[key].o /\ (had => pre.i.n[key].o = e.res.o)
                             ELSE e.res.o \in DOMAIN post.i.e /\ post.i.e[e.res.o].k = key /\ (had => e.res.o \in DOMAIN pre.i.e)))
                \cup F("same-objects-as-before",
                       /\ \A n \in DOMAIN pre.i.n : n \in DOMAIN post.i.n /\ post.i.n[n].o = pre.i.n[n].o
                       /\ \A o \in DOMAIN pre.i.e : o \in DOMAIN post.i.e)
                \cup F("other-graphs-untouched", DOMAIN e.post \subseteq {e.g})

\* every object of graph g before and after, as <<c, key>> pairs that denote the same object
SameN(pre, post) == {n \in DOMAIN pre.i.n \cap DOMAIN post.i.n : pre.i.n[n].o = post.i.n[n].o}
SameE(pre, post) == {k \in EdgeSet(pre.p) \cap EdgeSet(post.p) :
                       \E o \in DOMAIN pre.i.e \cap DOMAIN post.i.e : pre.i.e[o].k = k /\ post.i.e[o].k = k}

CheckG14(e) ==
  UNION {LET pre == heap[g]  post == e.post[g] IN
         F("frozen-value-unchanged",
           /\ \A n \in SameN(pre, post) : pre.p.na[n].frz => post.p.na[n].val = pre.p.na[n].val
           /\ \A k \in SameE(pre, post) : pre.p.ea[k].frz => post.p.ea[k].val = pre.p.ea[k].val)
         \cup (IF OwOf(g) # "n" THEN {}
               ELSE F("protected-style-unchanged",
                      /\ \A n \in SameN(pre, post) : (pre.p.na[n].sty # NoStyle /\ ~(e.op = "restyle" /\ e.c = "n" /\ e.x = n))
                                                        => post.p.na[n].sty = pre.p.na[n].sty
                      /\ \A k \in SameE(pre, post) : (pre.p.ea[k].sty # NoStyle /\ ~(e.op = "restyle" /\ e.c = "e" /\ e.x = k))
                                                        => post.p.ea[k].sty = pre.p.ea[k].sty)
                    \cup F("protected-style-object-unchanged",
                      /\ \A n \in SameN(pre, post) : pre.i.n[n].st # "-" => post.i.n[n].st = pre.i.n[n].st))
         : g \in DOMAIN e.post \cap DOMAIN heap}
  \cup (IF e.op \in {"gset", "add_obj"} /\ e.o \in DOMAIN loose /\ loose[e.o].frz
        THEN F("frozen-value-unchanged-outside", e.at.frz /\ e.at.val = loose[e.o].val)
        ELSE {})
  \cup (IF e.op = "gset"
        THEN LET r == SetLoose(e.at, e.f, e.v) IN
             IF r.out = "raise" THEN F("refused-assignment-raises-outside", Raised(e)) \cup F("refused-assignment-changes-nothing-outside", e.at2 = e.at)
             ELSE F("allowed-assignment-works-outside", e.res.k = "ok") \cup F("assignment-takes-effect-outside", e.at2 = r.at)
        ELSE {})
  \cup (IF e.op = "set" \/ e.op = "freeze"
        THEN LET r == Pred(e, heap[e.g])  post == After(e, e.g) IN
             IF r.out = "raise" THEN F("refused-assignment-raises", Raised(e))
             ELSE F("allowed-assignment-works", e.res.k = "ok")
                  \cup F("assignment-takes-effect", Content(post.p) = Content(r.post))
        ELSE IF e.op \in {"add_node", "connect"}
        THEN LET r == Pred(e, heap[e.g])  post == After(e, e.g) IN
             IF r.out = "part" THEN F("refused-update-raises", Raised(e))
             ELSE IF r.out \in {"ok", "warn"} THEN F("allowed-update-works", e.res.k = "ok")
                  \cup F("update-takes-effect", /\ \A n \in NodeSet(r.post) : n \in NodeSet(post.p) /\ post.p.na[n].val = r.post.na[n].val
                                                                               /\ post.p.na[n].sty = r.post.na[n].sty
                                                /\ \A k \in EdgeSet(r.post) : k \in EdgeSet(post.p) /\ post.p.ea[k].val = r.post.ea[k].val
                                                                               /\ post.p.ea[k].sty = r.post.ea[k].sty)
             ELSE {}
        ELSE {})

CheckG08(e) ==
  F("only-the-named-graph-changes", DOMAIN e.post \subseteq Targets(e))
  \cup (IF e.op = "copy"
        THEN F("copying-succeeds", e.res.k = "ok")
             \cup (IF e.res.k # "ok" THEN {}
                   ELSE LET a == heap[e.g]  b == e.post[e.g2] IN
                        F("same-nodes-and-edges-in-order", Structure(a.p) = Structure(b.p))
                        \cup F("same-attributes", a.p.na = b.p.na /\ a.p.ea = b.p.ea)
                        \cup F("same-settings", a.p.set = b.p.set)
                        \cup F("owns-its-objects", WF(b) = {} \/ WF(a) # {})
                        \cup F("shares-nothing", Fresh(e, e.g2))
                        \cup F("answers-alike", \A i \in DOMAIN e.dig : e.dig[i] = e.dig[1]))
        ELSE IF e.op = "twin"
        THEN F("copy-and-original-behave-alike",
               /\ Content(After(e, e.g).p) = Content(After(e, e.g2).p)
               /\ e.dig[1] = e.dig[2])
        ELSE {})

CheckG09(e) ==
  IF e.op # "filter" THEN F("no-other-graph-changes", DOMAIN e.post \subseteq Targets(e))
  ELSE F("filtering-succeeds", e.res.k = "ok" \/ (Foreign(e) /\ Raised(e)))
       \cup (IF e.res.k # "ok" THEN {}
             ELSE LET a == heap[e.g]  b == e.post[e.g2]
                      dir == IF e.dir = "default" THEN "to_and_from" ELSE e.dir
                      typ == IF e.typ = "default" THEN "include" ELSE e.typ
                      r == Filter(a.p, Range(e.names), dir, typ).post
                  IN  F("exactly-the-selected-nodes", NodeSet(b.p) = NodeSet(r))
                      \cup F("exactly-the-edges-among-them", EdgeSet(b.p) = EdgeSet(r))
                      \cup F("order-and-attributes-kept", Content(b.p) = Content(r))
                      \cup F("settings-kept", b.p.set = a.p.set)
                      \cup (IF "dig" \notin DOMAIN e THEN {}
                            ELSE F("declared-as-in-the-original",
                                   \A j \in {1, 2} : \A x \in DOMAIN e.dig[2][j] :
                                       x \in DOMAIN e.dig[1][j] /\ e.dig[1][j][x] = e.dig[2][j][x]))
                      \cup F("linked-to-the-result", WF(b) = {} \/ WF(a) # {})
                      \cup F("shares-nothing", Fresh(e, e.g2)))
       \cup F("original-unchanged", DOMAIN e.post \subseteq {e.g2})

\* the part of an object that dictionary descriptions carry
Carried(x) == <<x.lab, x.val, x.sty>>
SameDescribed(G, H) ==
  /\ G.nodes = H.nodes /\ G.out = H.out
  /\ \A n \in NodeSet(G) : Carried(G.na[n]) = Carried(H.na[n]) /\ Range(G.inn[n]) = Range(H.inn[n])
  /\ EdgeSet(G) = EdgeSet(H)
  /\ \A k \in EdgeSet(G) : Carried(G.ea[k]) = Carried(H.ea[k])

CheckG10(e) ==
  (IF e.op = "build"
   THEN F("conversion-succeeds", e.res.k = "ok")
        \cup (IF e.res.k # "ok" THEN {}
              ELSE LET a == heap[e.g]  b == e.post[e.g2] IN
                   F("same-description", SameDescribed(a.p, b.p))
                   \cup F("same-strictness-and-ordering", StrictOrd(a.p.set) = StrictOrd(b.p.set)))
        \cup F("source-unchanged", DOMAIN e.post \subseteq {e.g2} /\ e.src[1] = e.src[2])
   ELSE IF e.op \in {"append", "append_graph"}
   THEN LET pre == heap[e.g]  r == Pred(e, pre)  post == After(e, e.g) IN
        (IF r.out = "part" THEN F("malformed-or-refused-raises", Raised(e))
         ELSE F("appending-succeeds", e.res.k = "ok")
              \cup F("exactly-what-is-missing-or-supplied",
                     /\ SameDescribed(post.p, r.post)
                     /\ \A n \in NodeSet(pre.p) : post.p.na[n].frz = pre.p.na[n].frz /\ post.p.na[n].par = pre.p.na[n].par)
              \cup F("existing-objects-kept", \A n \in DOMAIN pre.i.n : n \in DOMAIN post.i.n /\ post.i.n[n].o = pre.i.n[n].o)
              \cup F("strictness-and-ordering", StrictOrd(post.p.set) = StrictOrd(r.post.set))
              \cup F("returns-the-graph", e.res.k = "ok" => e.res.o = pre.i.me))
        \cup F("source-unchanged", DOMAIN e.post \subseteq {e.g} /\ e.src[1] = e.src[2])
   ELSE {})

Plus(e, x, y) ==
  IF e.fn = "tagged" THEN "C(" \o x \o "|" \o y \o ")"
  ELSE IF x = None THEN y ELSE IF y = None THEN x
  ELSE LET k == x \o "|" \o y IN IF k \in DOMAIN e.plus THEN e.plus[k] ELSE "?"

CheckG11(e) ==
  IF e.op # "sum" THEN {}
  ELSE F("adding-succeeds", e.res.k = "ok")
       \cup (IF e.res.k # "ok" THEN {}
             ELSE LET a == heap[e.g].p  b == heap[e.g2].p  c == e.post[e.g3].p
                      sn == SumNodes(a, b, LAMBDA x, y : Plus(e, x, y))
                      se == SumEdges(a, b, LAMBDA x, y : Plus(e, x, y))
                  IN  F("union-of-nodes", NodeSet(c) = DOMAIN sn)
                      \cup F("union-of-edges", EdgeSet(c) = DOMAIN se)
                      \cup F("left-first-then-the-rest-of-the-right",
                             LET out(G, n) == IF n \in DOMAIN G.out THEN G.out[n] ELSE <<>> IN
                             /\ c.nodes = a.nodes \o SelectSeq(b.nodes, LAMBDA n : n \notin NodeSet(a))
                             /\ \A n \in NodeSet(c) : c.out[n] = out(a, n) \o SelectSeq(out(b, n), LAMBDA k : k \notin EdgeSet(a)))
                      \cup F("values-combined", /\ \A n \in NodeSet(c) \cap DOMAIN sn : c.na[n].val = sn[n].val
                                                /\ \A k \in EdgeSet(c) \cap DOMAIN se : c.ea[k].val = se[k].val)
                      \cup F("labels-and-styles-of-the-left",
                             /\ \A n \in NodeSet(c) \cap DOMAIN sn : c.na[n].lab = sn[n].lab /\ c.na[n].sty = sn[n].sty
                             /\ \A k \in EdgeSet(c) \cap DOMAIN se : c.ea[k].lab = se[k].lab /\ c.ea[k].sty = se[k].sty)
                      \cup F("ends", \A k \in EdgeSet(c) \cap DOMAIN se : <<c.ea[k].s, c.ea[k].e, c.ea[k].r>> = <<se[k].s, se[k].e, se[k].r>>)
                      \cup F("settings-of-the-left", StrictOrd(c.set) = StrictOrd(a.set)))
       \cup F("operands-unchanged", DOMAIN e.post \subseteq {e.g3})

\* ---------------------------------------------------------------------------
\* G20: comparisons, hashing, membership
Bool(b) == IF b THEN "T" ELSE "F"

CheckG20(e) ==
  IF e.op = "cmp"
  THEN F("comparing-works", e.res.k = "ok")
       \cup (IF e.res.k # "ok" THEN {}
             ELSE LET s == heap[e.g]
                      lt(a, b) == made[s.i.n[a].o] < made[s.i.n[b].o]
                  IN  UNION {LET c == e.obs.nodes[j]  a == c.a  b == c.b IN
                               F("equal-exactly-to-itself", c.eq = Bool(a = b))
                               \cup F("unequal-is-the-negation", c.ne = Bool(a # b))
                               \cup F("equal-hash-alike", a = b => c.h = "T")
                               \cup F("order-by-creation", /\ c.lt = Bool(lt(a, b)) /\ c.gt = Bool(lt(b, a))
                                                           /\ c.le = Bool(a = b \/ lt(a, b)) /\ c.ge = Bool(a = b \/ lt(b, a)))
                             : j \in DOMAIN e.obs.nodes}
                      \cup UNION {LET c == e.obs.edges[j] IN
                               F("edge-equal-exactly-to-itself", c.eq = Bool(c.a = c.b))
                               \cup F("edge-unequal-is-the-negation", c.ne = Bool(c.a # c.b))
                               \cup F("edge-equal-hash-alike", c.a = c.b => c.h = "T")
                             : j \in DOMAIN e.obs.edges}
                      \cup F("hash-kept", Len(e.obs.moved) = 0)
                      \cup F("comparisons-agree-across-graphs",
                             \A j \in DOMAIN e.obs.cross :
                               LET c == e.obs.cross[j] IN
                               /\ Cardinality({x \in {<<"<", c.lt>>, <<"=", c.eq>>, <<">", c.gt>>} : x[2] = "T"}) = 1
                               /\ c.ne = Bool(c.eq # "T") /\ c.le = Bool(c.gt # "T") /\ c.ge = Bool(c.lt # "T")
                               /\ (c.eq = "T" => c.h = "T"))
                      \cup F("sorting-by-creation",
                             \A j \in 1..(Len(e.obs.sorted) - 1) : lt(e.obs.sorted[j], e.obs.sorted[j + 1])))
  ELSE IF e.op = "in"
  THEN F("membership-never-raises", e.res.k = "ok")
       \cup (IF e.res.k # "ok" THEN {}
             ELSE LET s == heap[e.g] IN
                  F("contains-exactly-its-names", \A j \in DOMAIN e.obs.names : e.obs.names[j][2] = Bool(e.obs.names[j][1] \in NodeSet(s.p)))
                  \cup F("contains-exactly-its-node-objects",
                         \A j \in DOMAIN e.obs.objs : e.obs.objs[j][2] = Bool(\E n \in DOMAIN s.i.n : s.i.n[n].o = e.obs.objs[j][1])))
  ELSE {}

\* G21: similarity.  Everything that counts, as one value
Counted(G) == [na |-> [n \in NodeSet(G) |-> <<G.na[n].val, G.na[n].sty, G.na[n].par>>],
               ea |-> [k \in EdgeSet(G) |-> <<G.ea[k].val, G.ea[k].sty, G.ea[k].par>>],
               st |-> StrictOrd(G.set)]
NodeCounted(G, n) == [v |-> <<G.na[n].val, G.na[n].sty, G.na[n].par>>, n |-> n,
                      e |-> [k \in EdgesFrom(G, n) \cup EdgesTo(G, n) |-> <<G.ea[k].val, G.ea[k].sty, G.ea[k].par>>]]
CheckG21(e) ==
  IF e.op # "sim" THEN {}
  ELSE F("never-raises", e.res.k = "ok")
       \cup (IF e.res.k # "ok" THEN {}
             ELSE LET a == heap[e.g].p  b == heap[e.g2].p IN
                  F("similar-exactly-when-content-agrees", e.obs.ab = Bool(Counted(a) = Counted(b)))
                  \cup F("symmetric", e.obs.ab = e.obs.ba)
                  \cup F("reflexive", e.obs.aa = "T" /\ e.obs.bb = "T")
                  \cup UNION {LET c == e.obs.nodes[j] IN
                                F("nodes-similar-exactly-when-content-agrees", c.ab = Bool(NodeCounted(a, c.a) = NodeCounted(b, c.b)))
                                \cup F("nodes-symmetric", c.ab = c.ba)
                              : j \in DOMAIN e.obs.nodes}
                  \cup UNION {LET c == e.obs.edges[j] IN
                                F("edges-similar-exactly-when-content-agrees",
                                  c.ab = Bool(c.a = c.b /\ <<a.ea[c.a].val, a.ea[c.a].sty, a.ea[c.a].par>>
                                                           = <<b.ea[c.b].val, b.ea[c.b].sty, b.ea[c.b].par>>))
                                \cup F("edges-symmetric", c.ab = c.ba)
                              : j \in DOMAIN e.obs.edges})

\* ---------------------------------------------------------------------------
\* queries: the observed answers against the graph as observed at that moment
CheckQuery(e) ==
  IF e.op # "query" THEN {}
  ELSE F("the-question-is-answered", e.res.k = "ok")
       \cup (IF e.res.k # "ok" THEN {}
             ELSE LET s == heap[e.g] IN
             CASE Prop = "G03" -> QueryG03(s.p, e.obs)
               [] Prop = "G04" -> QueryG04(s.p, e.obs)
               [] Prop = "G05" -> QueryG05(s.p, e.obs)
               [] Prop = "G06" -> QueryG06(s.p, e.obs)
               [] Prop = "G07" -> QueryG07(s.p, e.obs, [n \in NodeSet(s.p) |-> made[s.i.n[n].o]])
               [] Prop = "G19" -> QueryG19(s.p, e.obs)
               [] OTHER -> {})

\* a state the model AbstractGraph reached by the same operations
CheckLoad(e) ==
  IF e.op # "load" \/ "model" \notin DOMAIN e THEN {}
  ELSE UNION {F("the-model's-state-is-reached",
                /\ g \in DOMAIN e.post \cup DOMAIN heap
                /\ LET m == e.model[g]  s == After(e, g).p IN
                  IF Prop \in {"G02", "G08", "G10", "G11", "G14", "G21"} THEN Content(s) = Content(m) ELSE Structure(s) = Structure(m))
              : g \in DOMAIN e.model}

Verdict(e) ==
  IF ~ReadableAll(e) THEN {"graph-readable"}
  ELSE CheckLoad(e) \cup CASE Prop = "G01" -> CheckG01(e)
         [] Prop = "G02" -> CheckG02(e)
         [] Prop = "G08" -> CheckG08(e)
         [] Prop = "G09" -> CheckG09(e)
         [] Prop = "G10" -> CheckG10(e)
         [] Prop = "G11" -> CheckG11(e)
         [] Prop = "G14" -> CheckG14(e)
         [] Prop = "G20" -> CheckG20(e)
         [] Prop = "G21" -> CheckG21(e)
         [] Prop \in {"G03", "G04", "G05", "G06", "G07", "G19"} -> CheckQuery(e)

\* ---------------------------------------------------------------------------
\* going on from what was observed
NextOw(e) ==
  CASE e.op = "new"  -> With(ow, e.g, e.ow)
    [] e.op = "load" /\ "ows" \in DOMAIN e -> e.ows
    [] e.op \in {"copy", "filter"} /\ e.res.k = "ok" -> With(ow, e.g2, OwOf(e.g))
    [] e.op = "build" /\ e.res.k = "ok" -> With(ow, e.g2, "n")
    [] e.op = "sum" /\ e.res.k = "ok" -> With(ow, e.g3, "n")
    [] OTHER -> ow

Source(e) == IF e.op \in {"copy", "filter"} THEN heap[e.g] ELSE [ok |-> FALSE]

RECURSIVE Number(_, _, _, _)
Number(m, names, i, src) ==
  IF names = <<>> THEN m
  ELSE LET n == names[1]  o == i.n[n].o
           v == IF src.ok /\ n \in DOMAIN src.i.n /\ src.i.n[n].o \in DOMAIN m THEN m[src.i.n[n].o]
                ELSE Cardinality(DOMAIN m) + 1
       IN  Number(IF o \in DOMAIN m THEN m ELSE With(m, o, v), Tail(names), i, src)
RECURSIVE NumberAll(_, _, _)
NumberAll(m, gs, e) ==
  IF gs = {} THEN m
  ELSE LET g == CHOOSE x \in gs : TRUE
       IN  NumberAll(IF e.post[g].ok THEN Number(m, e.post[g].p.nodes, e.post[g].i, Source(e)) ELSE m, gs \ {g}, e)

Init == /\ tid \in DOMAIN Histories
        /\ l = 1
        /\ heap = <<>>
        /\ ow = <<>>
        /\ made = <<>>
        /\ loose = <<>>

\* the attributes of the objects that leave a graph, and of those changed outside
NextLoose(e) ==
  LET left == [o \in UNION {{e.gone[g].n[j][1] : j \in DOMAIN e.gone[g].n} : g \in DOMAIN e.gone} |->
                 LET g == CHOOSE h \in DOMAIN e.gone : \E j \in DOMAIN e.gone[h].n : e.gone[h].n[j][1] = o
                     n == CHOOSE m \in DOMAIN heap[g].i.n : heap[g].i.n[m].o = o
                 IN  heap[g].p.na[n]]
  IN  (IF e.op = "gset" THEN e.o :> e.at2 ELSE <<>>) @@ left @@ loose

Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               bad == Verdict(e)
           IN  /\ (bad # {}) => PrintT(<<"CLAUSES", Histories[tid].id, l, e.op, bad>>)
               /\ heap' = e.post @@ heap
               /\ ow' = NextOw(e)
               /\ made' = IF Prop \in {"G07", "G20"} THEN NumberAll(made, DOMAIN e.post, e) ELSE made
               /\ loose' = IF Prop = "G14" THEN NextLoose(e) ELSE loose
        /\ l' = l + 1
        /\ tid' = tid

Spec == Init /\ [][Next]_vars

\* accepted = every event of every history was consumed: one state per event, plus one initial state per history
RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Histories[n].ev) + 1 + Total(n - 1)
AllConsumed == TLCGet("stats").distinct = Total(Len(Histories))
=============================================================================
