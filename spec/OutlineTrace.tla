---------------------------- MODULE OutlineTrace ----------------------------
(***************************************************************************)
(* Trace validation of G18: each event is one outline given to the parser  *)
(* and to the graph builder, with what both made of it.                    *)
(***************************************************************************)
EXTENDS Outline, Naturals, Integers, Sequences, FiniteSets, Json, TLC

CONSTANTS TraceFile, Prop

Histories == ndJsonDeserialize(TraceFile)

VARIABLES tid, l
vars == <<tid, l>>

F(name, cond) == IF cond THEN {} ELSE {name}
Range(q) == {q[i] : i \in DOMAIN q}
Ev == Histories[tid].ev

\* names as the builder gives them
Name(i) == IF i = 0 THEN "s:root" ELSE "s:" \o ToString(i - 1)

CheckParse(e, m) ==
  IF ~m.ok THEN F("rejected", e.res.k = "exc")
  ELSE F("accepted", e.res.k = "ok")
       \cup (IF e.res.k # "ok" THEN {}
             ELSE F("one-row-per-line", Len(e.obs.rows) = Len(e.lines) /\ \A i \in DOMAIN e.obs.rows : e.obs.rows[i].i = i - 1)
                  \cup (IF Len(e.obs.rows) # Len(e.lines) THEN {}
                        ELSE F("level", \A i \in DOMAIN e.lines : e.obs.rows[i].l = m.level[i])
                             \cup F("parent", \A i \in DOMAIN e.lines : e.obs.rows[i].p = m.parent[i] - 1)
                             \cup F("text-unaltered", \A i \in DOMAIN e.lines : e.obs.rows[i].t = m.text[i])))

CheckBuild(e, m) ==
  IF ~m.ok THEN F("rejected", e.res.k = "exc")
  ELSE F("accepted", e.res.k = "ok")
       \cup (IF e.res.k # "ok" THEN {}
             ELSE LET kids == [p \in 0..Len(e.lines) |-> SelectSeq([i \in DOMAIN e.lines |-> i], LAMBDA i : m.parent[i] = p)]
                  IN  F("one-node-per-line", e.obs.nodes = [i \in 1..(Len(e.lines) + 1) |-> Name(i - 1)])
                      \cup F("root-is-labelled", e.obs.label = e.root)
                      \cup F("edges-to-the-parents-in-order",
                             DOMAIN e.obs.out = {Name(p) : p \in 0..Len(e.lines)}
                             /\ \A p \in 0..Len(e.lines) : e.obs.out[Name(p)] = [j \in DOMAIN kids[p] |-> Name(kids[p][j])])
                      \cup F("number-of-edges", e.obs.count = Len(e.lines)))

Check(e) ==
  LET m == Meaning(e.lines, e.unit)
  IN  F("no-spurious-warnings", e.res.w = 0) \cup (IF e.op = "parse" THEN CheckParse(e, m) ELSE CheckBuild(e, m))

Init == tid \in DOMAIN Histories /\ l = 1
Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l]  bad == Check(e)
           IN  (bad # {}) => PrintT(<<"CLAUSES", Histories[tid].id, l, e.op, bad>>)
        /\ l' = l + 1
        /\ tid' = tid
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Histories[n].ev) + 1 + Total(n - 1)
AllConsumed == TLCGet("stats").distinct = Total(Len(Histories))
=============================================================================
