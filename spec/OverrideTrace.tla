---------------------------- MODULE OverrideTrace ----------------------------
(***************************************************************************)
(* Trace validation of G24: style and colour overrides.                    *)
(*                                                                         *)
(* A "look" is a function from attribute to token.  For every graph the    *)
(* specification keeps which look each node and edge has so far (or none), *)
(* the overrides given so far, and the graph-wide styles; a rendering must *)
(* show exactly the looks obtained by layering them.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS TraceFile, Prop

Histories == ndJsonDeserialize(TraceFile)

VARIABLES tid, l,
          heap     \* graph -> its state as specified
vars == <<tid, l, heap>>

F(name, cond) == IF cond THEN {} ELSE {name}
Ev == Histories[tid].ev
INSTANCE OverrideOps WITH DerN <- Histories[tid].dern, DerE <- Histories[tid].dere

\* changing a style in place changes the look of that node or edge, and of no other in any graph
Restyled(e) ==
  [g \in DOMAIN e.before |->
     IF g # e.g THEN e.before[g]
     ELSE [e.before[g] EXCEPT ![e.c] = [@ EXCEPT ![e.x] = Over(e.part, @)]]]

Check(e) ==
  F("succeeds", e.res.k = "ok")
  \cup (IF e.op = "restyle" /\ e.res.k = "ok" THEN F("only-this-one-looks-different", e.after = Restyled(e)) ELSE {})
  \cup (IF e.op # "render" \/ e.res.k # "ok" THEN {}
        ELSE LET G == heap[e.g]  R == Rendered(G, e) IN
             F("same-nodes", DOMAIN e.looksn = Nodes(G))
             \cup F("same-edges", DOMAIN e.lookse = Keys(G))
             \cup F("looks-of-nodes", e.looksn = R.pn)
             \cup F("looks-of-edges", e.lookse = R.pe)
             \cup F("rendering-again-is-the-same", e.text[1] = e.text[2]))
  \cup F("given-styles-untouched", e.given[1] = e.given[2])

Init == tid \in DOMAIN Histories /\ l = 1 /\ heap = <<>>

Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l]  bad == Check(e)
           IN  /\ (bad # {}) => PrintT(<<"CLAUSES", Histories[tid].id, l, e.op, bad>>)
               /\ heap' = IF e.op = "render" /\ e.res.k # "ok" THEN heap ELSE Step(heap, e)
        /\ l' = l + 1
        /\ tid' = tid

Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Histories[n].ev) + 1 + Total(n - 1)
AllConsumed == TLCGet("stats").distinct = Total(Len(Histories))
=============================================================================
