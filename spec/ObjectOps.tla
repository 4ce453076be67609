------------------------------ MODULE ObjectOps ------------------------------
(***************************************************************************)
(* Objects that tell their parents and children (G15, G16).  A world is    *)
(*   up, down : object -> sequence of objects,  text : object -> string    *)
(* which change between questions, and which need not agree for G15.       *)
(***************************************************************************)
EXTENDS Digraph, Naturals, Integers, Sequences, FiniteSets

Without(q, x) ==
  IF x \notin Range(q) THEN q
  ELSE LET i == CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
       IN  SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

\* e.sides: "both", or only the list of the one or of the other changes
Step(w, e) ==
  CASE e.op = "link" -> [w EXCEPT !.down[e.a] = IF e.sides # "up" THEN Append(@, e.b) ELSE @,
                                  !.up[e.b] = IF e.sides # "down" THEN Append(@, e.a) ELSE @]
    [] e.op = "unlink" -> [w EXCEPT !.down[e.a] = IF e.sides # "up" THEN Without(@, e.b) ELSE @,
                                    !.up[e.b] = IF e.sides # "down" THEN Without(@, e.a) ELSE @]
    [] e.op = "text" -> [w EXCEPT !.text[e.a] = e.v]
    [] OTHER -> w

Adj(lists) == [x \in DOMAIN lists |-> Range(lists[x])]
Cut(layers, limited, limit) ==
  IF ~limited THEN layers
  ELSE SubSeq(layers, 1, IF limit <= 0 THEN 0 ELSE IF limit < Len(layers) THEN limit ELSE Len(layers))
\* the objects at each distance, within the limit
Groups(lists, obj, limited, limit) == Cut(LayersOthers(Adj(lists), obj), limited, limit)
UnionOf(layers) == UNION Range(layers)

LinksAmong(w, S) == {<<p, c>> \in S \X S : p \in Range(w.up[c])}
\* the graph built from an object: e.dlimited, e.dlimit downwards, e.ulimited, e.ulimit upwards
GraphOf(w, e) ==
  LET D == UnionOf(Groups(w.down, e.obj, e.dlimited, e.dlimit))
      A == UnionOf(Groups(w.up, e.obj, e.ulimited, e.ulimit))
  IN  [nodes |-> D \cup A \cup {e.obj}, links |-> LinksAmong(w, D \cup {e.obj}) \cup LinksAmong(w, A \cup {e.obj})]
=============================================================================
