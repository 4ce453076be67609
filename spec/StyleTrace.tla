------------------------------ MODULE StyleTrace ------------------------------
(***************************************************************************)
(* Trace validation of G22: style objects.                                 *)
(*                                                                         *)
(* The state is a heap of styles.  A style has a main colour, three (nodes)*)
(* or one (edges) further colours, each with a flag telling whether it was *)
(* chosen explicitly, and plain attributes.  "-" stands for a colour that  *)
(* was reset and not derived again yet; what is shown for it is not        *)
(* specified.  How a colour is derived is read from fresh styles (der,     *)
(* gray), how it is inverted from the colour library (inv).                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS TraceFile, Prop

Histories == ndJsonDeserialize(TraceFile)

VARIABLES tid, l,
          heap     \* style -> its state
vars == <<tid, l, heap>>

F(name, cond) == IF cond THEN {} ELSE {name}
Range(q) == {q[i] : i \in DOMAIN q}
Has(f, x) == x \in DOMAIN f
Ev == Histories[tid].ev
T == Histories[tid].tables

INSTANCE StyleOps WITH T <- Histories[tid].tables
Alpha(c, o) == T.alpha[o][c]       \* how a colour is written at an opacity

Next1(e) == IF e.res.k # "ok" THEN heap ELSE Step(heap, e)

\* ----- what must be seen
Seen(o, s) ==
  F("main-colour", o.main = s.main)
  \cup (IF s.text = Unset THEN {} ELSE F("text-colour", o.text = s.text /\ o.shown.text = Alpha(s.text, s.at.opacity)))
  \cup (IF s.cls = "edge"
        THEN F("main-colour-shown", o.shown.main = Alpha(s.main, s.at.opacity))
        ELSE (IF s.fill = Unset THEN {} ELSE F("fill-colour", o.fill = s.fill /\ o.shown.fill = Alpha(s.fill, s.at.opacity)))
             \cup (IF s.border = Unset THEN {} ELSE F("border-colour", o.border = s.border /\ o.shown.border = Alpha(s.border, s.at.opacity))))
  \cup F("other-attributes", o.at = [x \in {y \in DOMAIN s.at : s.at[y] # "n" /\ (s.cls = "edge" => y # "opacity")} |-> s.at[x]])

\* a colour object of style e.s was changed in place: what that style shows is not specified, everything else is
Ignored(e) == IF e.op = "paint" THEN {e.s} ELSE {}
Gone(e) == IF e.op = "paint" /\ e.res.k = "ok" THEN {e.s} ELSE {}

Check(e) ==
  LET nxt == Next1(e)
      live == (DOMAIN nxt \cap DOMAIN e.obs) \ Ignored(e)
  IN  F("succeeds", e.res.k = "ok")
      \cup F("every-style-readable", DOMAIN e.obs = DOMAIN nxt)
      \cup (IF e.op \in {"copy", "invert"} /\ e.res.k = "ok" THEN F("a-new-object", e.fresh) ELSE {})
      \cup (IF "dig" \in DOMAIN e THEN F("a-pickle-is-the-same-in-another-process", \A i \in DOMAIN e.dig : e.dig[i] = e.dig[1]) ELSE {})
      \cup UNION {IF x = (IF "new" \in DOMAIN e THEN e.new ELSE e.s) THEN Seen(e.obs[x], nxt[x])
                  ELSE {"unrelated-style-changed:" \o c : c \in Seen(e.obs[x], nxt[x])} : x \in live}

\* deriving must depend on the colour, and go the asked way
CheckTables ==
  F("fill-lighter-or-darker-as-asked", \A c \in DOMAIN T.lum.main :
       /\ T.lum.fill["yes"][c] >= T.lum.main[c] /\ T.lum.border["yes"][c] <= T.lum.main[c]
       /\ T.lum.fill["no"][c] <= T.lum.main[c] /\ T.lum.border["no"][c] >= T.lum.main[c])
  \cup F("derived-from-the-main-colour", T.distinct)

Init == tid \in DOMAIN Histories /\ l = 1 /\ heap = <<>>

Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l]
               bad == Check(e) \cup (IF l = 1 THEN CheckTables ELSE {})
               n == Next1(e)
           IN  /\ (bad # {}) => PrintT(<<"CLAUSES", Histories[tid].id, l, e.op, bad>>)
               /\ heap' = [x \in DOMAIN n \ Gone(e) |-> n[x]]
        /\ l' = l + 1
        /\ tid' = tid

Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(n) == IF n = 0 THEN 0 ELSE Len(Histories[n].ev) + 1 + Total(n - 1)
AllConsumed == TLCGet("stats").distinct = Total(Len(Histories))
=============================================================================
