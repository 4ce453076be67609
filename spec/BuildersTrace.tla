---------------------------- MODULE BuildersTrace ----------------------------
(***************************************************************************)
(* Trace validation of object traversal (G15), of building graphs from     *)
(* objects and lists (G16) and of random graphs (G17).                     *)
(* Objects are named by tokens.  The state is the world of ObjectOps; its  *)
(* owner's changes to it are events of their own.                          *)
(***************************************************************************)
EXTENDS ObjectOps, RandomOps, Json, TLC

CONSTANTS TraceFile, Prop

Histories == ndJsonDeserialize(TraceFile)

VARIABLES tid, l, w
vars == <<tid, l, w>>

F(name, cond) == IF cond THEN {} ELSE {name}
Ev == Histories[tid].ev

\* ----- G15: obs.groups : sequence of <<distance, objects>>; obs.list : objects
CheckG15(e) ==
  LET layers == Groups(IF e.op = "ancestors" THEN w.up ELSE w.down, e.obj, e.limited, e.limit) IN
  IF e.dist
  THEN F("one-group-per-distance", Len(e.obs.groups) = Len(layers) /\ {e.obs.groups[i][1] : i \in DOMAIN e.obs.groups} = DOMAIN layers)
       \cup F("shortest-distance", \A i \in DOMAIN e.obs.groups :
                e.obs.groups[i][1] \in DOMAIN layers /\ Range(e.obs.groups[i][2]) = layers[e.obs.groups[i][1]])
       \cup F("each-once", \A i \in DOMAIN e.obs.groups : NoDup(e.obs.groups[i][2]))
  ELSE F("exactly-the-objects-within-the-limit", Range(e.obs.list) = UnionOf(layers))
       \cup F("each-once", NoDup(e.obs.list))

\* ----- G16
CheckObject(e) ==
  LET g == GraphOf(w, e)  nodes == g.nodes  links == g.links
  IN  F("one-node-per-object", Range(e.obs.nodes) = nodes /\ NoDup(e.obs.nodes))
      \cup F("labelled-with-its-text", \A i \in DOMAIN e.obs.nodes : e.obs.nodes[i] \in nodes => e.obs.labels[i] = w.text[e.obs.nodes[i]])
      \cup F("exactly-the-links", Range(e.obs.edges) = links /\ NoDup(e.obs.edges))
      \cup F("no-spurious-warnings", e.res.w = 0)
      \cup F("strictness", e.obs.strict = e.strict)

\* e.rows : <<start, end, label>>; obs.nodes, obs.out : name -> <<end, label>> in order
CheckLists(e) ==
  LET names == {e.rows[i][1] : i \in DOMAIN e.rows} \cup {e.rows[i][2] : i \in DOMAIN e.rows}
      rowsFrom(n) == SelectSeq(e.rows, LAMBDA r : r[1] = n)
      rowsTo(n) == SelectSeq(e.rows, LAMBDA r : r[2] = n)
  IN  F("one-node-per-name", Range(e.obs.nodes) = names /\ NoDup(e.obs.nodes))
      \cup (IF Range(e.obs.nodes) # names THEN {}
            ELSE F("one-edge-per-row-in-order", \A n \in names :
                     /\ e.obs.out[n] = [i \in DOMAIN rowsFrom(n) |-> <<rowsFrom(n)[i][2], rowsFrom(n)[i][3]>>]
                     /\ e.obs.inn[n] = [i \in DOMAIN rowsTo(n) |-> <<rowsTo(n)[i][1], rowsTo(n)[i][3]>>]))
      \cup F("number-of-edges", e.obs.count = Len(e.rows))
      \cup F("no-spurious-warnings", e.res.w = 0)
      \cup F("strictness", e.obs.strict = e.strict)

CheckG16(e) == IF e.op = "from_object" THEN CheckObject(e) ELSE CheckLists(e)

\* ----- G17: obs.names, obs.edges as pairs of positions (from 1); obs.again, obs.other : digests
\* what many seeds give, together: obs.met : sequence of the graphs that came, each a sequence of pairs
CheckSpread(e) == F("every-possible-graph-comes", {Range(e.obs.met[i]) : i \in DOMAIN e.obs.met} = PossibleGraphs(e))
CheckG17(e) ==
  IF e.op = "spread" THEN CheckSpread(e) ELSE
  F("nodes-named-consecutively", e.obs.names = [i \in 1..e.n |-> ToString(e.start + i - 1)])
  \cup F("at-most-one-edge-per-pair", NoDup(e.obs.edges))
  \cup F("only-permitted-edges", Range(e.obs.edges) \subseteq Permitted(e))
  \cup F("no-edges-at-zero", e.p = "low" => e.obs.edges = <<>>)
  \cup F("every-edge-at-one", e.p = "high" => Range(e.obs.edges) = Permitted(e))
  \cup F("same-seed-same-graph", \A i \in DOMAIN e.obs.same : e.obs.same[i] = e.obs.same[1])
  \cup F("no-spurious-warnings", e.res.w = 0)
  \cup F("settings", e.obs.strict = e.strict /\ e.obs.ord = e.ord)

Check(e) ==
  F("succeeds", e.res.k = "ok")
  \cup (IF e.res.k # "ok" \/ e.op \in {"link", "unlink", "text"} THEN {}
        ELSE CASE Prop = "G15" -> CheckG15(e) [] Prop = "G16" -> CheckG16(e) [] Prop = "G17" -> CheckG17(e))

Init == tid \in DOMAIN Histories /\ l = 1 /\ w = [up |-> Histories[tid].up, down |-> Histories[tid].down, text |-> Histories[tid].text]
Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l]  bad == Check(e)
           IN  /\ (bad # {}) => PrintT(<<"CLAUSES", Histories[tid].id, l, e.op, bad>>)
               /\ w' = Step(w, e)
        /\ l' = l + 1
        /\ tid' = tid
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Histories[n].ev) + 1 + Total(n - 1)
AllConsumed == TLCGet("stats").distinct = Total(Len(Histories))
=============================================================================
