------------------------------ MODULE StyleOps ------------------------------
(***************************************************************************)
(* What the operations on style objects do (G22): the operators that both  *)
(* the model StyleModel and trace validation (StyleTrace) use.             *)
(*                                                                         *)
(* A style has a main colour, three (nodes) or one (edges) further colours,*)
(* each with a flag telling whether it was chosen explicitly, and plain    *)
(* attributes.  "-" stands for a colour that was reset and not derived     *)
(* again yet.  How colours are derived from one another is a parameter.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT T    \* the tables: default, fill, border, gray, inv, plain

Unset == "-"
Fill(light, c) == T.fill[light][c]
Border(light, c) == T.border[light][c]
Gray(c) == T.gray[c]
Inv(c) == T.inv[c]

\* ----- the colour rules
\* the main colour is set: what was reset is derived
SetMain(s, c) ==
  IF s.cls = "edge" THEN [s EXCEPT !.main = c, !.text = IF @ = Unset THEN c ELSE @, !.tx = IF s.text = Unset THEN FALSE ELSE @]
  ELSE LET fill == IF s.fill = Unset THEN Fill(s.light, c) ELSE s.fill
           border == IF s.border = Unset THEN Border(s.light, c) ELSE s.border
       IN  [s EXCEPT !.main = c, !.fill = fill, !.border = border, !.text = IF @ = Unset THEN Gray(fill) ELSE @,
                     !.fx = IF s.fill = Unset THEN FALSE ELSE @, !.bx = IF s.border = Unset THEN FALSE ELSE @,
                     !.tx = IF s.text = Unset THEN FALSE ELSE @]
\* one attribute is given ("n": nothing is given)
Put(s, a, v) ==
  CASE a = "colour" -> SetMain(s, v)
    [] a = "fill_colour" -> IF v = "n" THEN s ELSE [s EXCEPT !.fill = v, !.fx = TRUE]
    [] a = "border_colour" -> IF v = "n" THEN s ELSE [s EXCEPT !.border = v, !.bx = TRUE]
    [] a = "text_colour" -> IF v # "n" THEN [s EXCEPT !.text = v, !.tx = TRUE]
                            ELSE IF s.cls = "edge" THEN [s EXCEPT !.text = s.main, !.tx = FALSE] ELSE s
    [] a = "lighter_fill" -> [s EXCEPT !.light = v]
    [] OTHER -> [s EXCEPT !.at = [x \in DOMAIN @ |-> IF x = a THEN v ELSE @[x]]]
RECURSIVE PutAll(_, _, _)
PutAll(s, items, i) == IF i > Len(items) THEN s ELSE PutAll(Put(s, items[i].a, items[i].v), items, i + 1)

\* the colours given at birth, "n" where none was
First(q) == LET I == {i \in DOMAIN q : q[i] # "n"} IN IF I = {} THEN T.default ELSE q[CHOOSE i \in I : \A j \in I : i <= j]
New(e) ==
  LET main == First(IF e.cls = "edge" THEN <<e.colour, e.text>> ELSE <<e.colour, e.fill, e.border>>)
      or(x) == IF x = "n" THEN Unset ELSE x
      blank == [cls |-> e.cls, main |-> main, fill |-> IF e.cls = "edge" THEN Unset ELSE or(e.fill),
                border |-> IF e.cls = "edge" THEN Unset ELSE or(e.border), text |-> or(e.text),
                fx |-> e.fill # "n", bx |-> e.border # "n", tx |-> e.text # "n", light |-> e.light,
                at |-> [x \in DOMAIN T.plain[e.cls] |-> IF x \in DOMAIN e.at THEN e.at[x] ELSE T.plain[e.cls][x]]]
  IN  SetMain(blank, main)

Reset(s) == [s EXCEPT !.fill = Unset, !.border = Unset, !.text = Unset, !.fx = FALSE, !.bx = FALSE, !.tx = FALSE]

Invert(s) ==
  SetMain([s EXCEPT !.fill = IF s.fx THEN Inv(@) ELSE Unset, !.border = IF s.bx THEN Inv(@) ELSE Unset,
                    !.text = IF s.tx THEN Inv(@) ELSE Unset], Inv(s.main))

\* ----- the calls: the heap of styles afterwards
Step(heap, e) ==
  CASE e.op = "new" -> [x \in DOMAIN heap \cup {e.s} |-> IF x = e.s THEN New(e) ELSE heap[x]]
    [] e.op = "copy" -> [x \in DOMAIN heap \cup {e.new} |-> IF x = e.new THEN heap[e.s] ELSE heap[x]]
    [] e.op = "invert" -> [x \in DOMAIN heap \cup {e.new} |-> IF x = e.new THEN Invert(heap[e.s]) ELSE heap[x]]
    [] e.op = "set" -> [heap EXCEPT ![e.s] = Put(@, e.a, e.v)]
    [] e.op = "complement" -> [heap EXCEPT ![e.s] = PutAll(@, e.items, 1)]
    [] e.op = "reset" -> [heap EXCEPT ![e.s] = Reset(@)]
    [] e.op = "paint" -> heap
=============================================================================
