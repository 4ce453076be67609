------------------------------ MODULE FileTrace ------------------------------
(***************************************************************************)
(* Trace validation of G23.  The state is a folder: a function from path   *)
(* to [kind, sum] (the kind of file found there and a digest).  Each event *)
(* is one rendering; obs.files is the folder afterwards.                   *)
(***************************************************************************)
EXTENDS FileOps, Json, TLC

CONSTANTS TraceFile, Prop

Histories == ndJsonDeserialize(TraceFile)

VARIABLES tid, l, files
vars == <<tid, l, files>>

F(name, cond) == IF cond THEN {} ELSE {name}
Range(q) == {q[i] : i \in DOMAIN q}
Ev == Histories[tid].ev
Bag(q) == [v \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = v})]

Check(e) ==
  LET after == e.obs.files IN
  F("succeeds", e.res.k = "ok")
  \cup F("no-other-file-written", NoneAdded(files, after, e))
  \cup F("no-file-lost", DOMAIN files \subseteq DOMAIN after)
  \cup F("other-files-kept", Kept(files, after, e))
  \cup (IF e.res.k # "ok" \/ e.op \in {"put", "change"} THEN {}
        ELSE F("same-source-as-without-a-path", e.obs.source = e.obs.plain)
             \cup F("content-as-before", e.obs.before = e.obs.after)
             \cup (IF e.op # "render_to" THEN {}
                   ELSE IF e.path \notin DOMAIN after THEN {"image-at-the-path"}
                   ELSE F("format-of-the-extension", after[e.path].kind = KindOf(e.ext))
                        \cup F("shows-the-graph", e.obs.image = e.obs.expected))
             \cup (IF e.obs.svg.ok
                   THEN F("svg-shows-the-nodes", Bag(e.obs.svg.nodes) = Bag(e.nodes))
                        \cup F("svg-shows-the-edges", Bag(e.obs.svg.edges) = Bag(e.edges))
                        \cup (IF e.w > 0 /\ e.h > 0
                              THEN F("within-the-size", e.obs.svg.w <= e.w + 1 /\ e.obs.svg.h <= e.h + 1
                                                        /\ (e.obs.svg.w >= e.w - 1 \/ e.obs.svg.h >= e.h - 1))
                              ELSE {})
                   ELSE {}))

Init == tid \in DOMAIN Histories /\ l = 1 /\ files = Histories[tid].files
Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l]  bad == Check(e)
           IN  /\ (bad # {}) => PrintT(<<"CLAUSES", Histories[tid].id, l, e.op, bad>>)
               /\ files' = e.obs.files
        /\ l' = l + 1
        /\ tid' = tid
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Histories[n].ev) + 1 + Total(n - 1)
AllConsumed == TLCGet("stats").distinct = Total(Len(Histories))
=============================================================================
