----------------------------- MODULE StyleModel -----------------------------
(***************************************************************************)
(* The state machine of style objects (G22): one action per operation, each*)
(* defined by StyleOps.  Colours are terms: "r", "~r" (inverted), "F+r" and*)
(* "B+r" (fill and border derived from r, brighter fill), "F-r" and "B-r"  *)
(* (the other way round), "G(x)" (text colour for the fill x).             *)
(*                                                                         *)
(* TLC explores it exhaustively, checks the laws below, and (Emit) prints  *)
(* every transition, which the replay leads the real code through.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

CONSTANTS
  Kind,        \* "node" or "edge"
  Births,      \* the ways a style is made: "plain", "main", "part", "full"
  Given,       \* colours that are given by the user
  Plains,      \* values of the plain attribute
  Items,       \* at most this many attributes in one complement (0, 1 or 2)
  MaxStyles,   \* how many styles
  Ops, Watch, Emit

VARIABLES heap, last
vars == <<heap, last>>
View == heap

Base == Given \cup {"d"}
Hues == Base \cup {"~" \o c : c \in Base}
Inverse == [c \in Hues |-> IF c \in Base THEN "~" \o c ELSE CHOOSE b \in Base : "~" \o b = c]
FillOf == [light \in {"yes", "no"} |-> [c \in Hues |-> (IF light = "yes" THEN "F+" ELSE "F-") \o c]]
BorderOf == [light \in {"yes", "no"} |-> [c \in Hues |-> (IF light = "yes" THEN "B+" ELSE "B-") \o c]]
Fills == Hues \cup {FillOf[light][c] : light \in {"yes", "no"}, c \in Hues}
Tables == [default |-> "d", fill |-> FillOf, border |-> BorderOf, gray |-> [c \in Fills |-> "G(" \o c \o ")"],
           inv |-> Inverse, plain |-> [node |-> [shape |-> "box"], edge |-> [lblstyle |-> "below"]]]

INSTANCE StyleOps WITH T <- Tables

Plain == CHOOSE a \in DOMAIN Tables.plain[Kind] : TRUE
Extra == IF Kind = "edge" THEN {"text_colour"} ELSE {"fill_colour", "border_colour", "text_colour"}
Live == DOMAIN heap
\* styles are numbered in the order in which they are made
Fresh == ToString(Cardinality(Live) + 1)

Number == 1
Reached(e) == TLCSet(Number, TLCGet(Number) + 1) /\ last' = [id |-> TLCGet(Number), from |-> last.id, op |-> e]
Show(e) == (Emit /\ e.op \in Watch) => PrintT("@@" \o ToJson([at |-> last.id, e |-> e, out |-> "ok"]))
Announced == Emit => PrintT("##" \o ToJson([id |-> last.id, from |-> last.from, op |-> last.op, h |-> <<>>]))

Do(e) ==
  /\ Show(e)
  /\ IF Step(heap, e) # heap THEN heap' = Step(heap, e) /\ Reached(e) ELSE UNCHANGED vars

Colour == Given \cup {"n"}
NewA ==
  \E b \in Births :
    \E c \in (IF b = "plain" THEN {"n"} ELSE Given), x \in (IF b \in {"part", "full"} THEN Given ELSE {"n"}), light \in {"yes", "no"} :
      /\ Kind = "edge" => light = "yes"
      /\ Cardinality(Live) < MaxStyles
      /\ Do([op |-> "new", s |-> Fresh, cls |-> Kind, colour |-> IF b = "part" THEN "n" ELSE c,
             fill |-> IF Kind = "edge" THEN "n" ELSE x, border |-> IF Kind = "edge" \/ b # "full" THEN "n" ELSE x,
             text |-> IF b = "full" \/ (Kind = "edge" /\ b = "part") THEN x ELSE "n", light |-> light, at |-> <<>>])

CloneA ==
  \E s \in Live, op \in {"copy", "invert"} :
    /\ op \in Ops
    /\ Cardinality(Live) < MaxStyles
    /\ Do([op |-> op, s |-> s, new |-> Fresh])

SetA ==
  \E s \in Live, a \in Extra \cup {"colour"}, v \in Colour :
    /\ a = "colour" => v # "n"
    /\ Do([op |-> "set", s |-> s, a |-> a, v |-> v])

Item == {[a |-> a, v |-> v] : a \in Extra \cup {"colour"}, v \in Given}
        \cup {[a |-> Plain, v |-> v] : v \in Plains}
        \cup (IF Kind = "edge" THEN {} ELSE {[a |-> "lighter_fill", v |-> v] : v \in {"yes", "no"}})
ComplementA ==
  \E s \in Live :
    \/ Items >= 1 /\ \E x \in Item : Do([op |-> "complement", s |-> s, items |-> <<x>>])
    \/ Items >= 2 /\ \E x, y \in Item : x.a # y.a /\ Do([op |-> "complement", s |-> s, items |-> <<x, y>>])

ResetA == \E s \in Live : Do([op |-> "reset", s |-> s])

Init == heap = <<>> /\ TLCSet(Number, 0) /\ last = [id |-> 0, from |-> 0, op |-> [op |-> "start"]]

Next == \/ NewA
        \/ CloneA
        \/ "set" \in Ops /\ SetA
        \/ "complement" \in Ops /\ ComplementA
        \/ "reset" \in Ops /\ ResetA

Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------------
\* the colours of a style and whether each was chosen by the user
Chosen(s) == {a \in Extra : CASE a = "fill_colour" -> s.fx [] a = "border_colour" -> s.bx [] OTHER -> s.tx}
ColourOf(s, a) == CASE a = "colour" -> s.main [] a = "fill_colour" -> s.fill [] a = "border_colour" -> s.border [] OTHER -> s.text
Names(e) == CASE e.op = "set" -> {e.a} [] e.op = "complement" -> {e.items[i].a : i \in DOMAIN e.items} [] OTHER -> {}
Moves == last' # last
Op == last'.op

Whole == \A s \in Live : Chosen(heap[s]) \subseteq {a \in Extra : ColourOf(heap[s], a) \in Hues}

\* an operation changes the style it names and no other
OthersUntouched == [][\A s \in Live : heap'[s] # heap[s] => Op.op \in {"set", "complement", "reset"} /\ Op.s = s]_vars

\* a colour that is not named stays, unless it was reset and the main colour is given
NotNamedNotChanged ==
  [][\A s \in Live : \A a \in (Extra \cup {"colour"}) :
       (Moves /\ ColourOf(heap'[s], a) # ColourOf(heap[s], a)) =>
         \/ Op.op = "reset"
         \/ a \in Names(Op)
         \/ "colour" \in Names(Op) /\ ColourOf(heap[s], a) = Unset]_vars

\* a chosen colour stays chosen until it is reset; only choosing makes it chosen
ChosenStays ==
  [][\A s \in Live : Moves => /\ Op.op # "reset" /\ ~(Kind = "edge" /\ "text_colour" \in Names(Op)) => Chosen(heap[s]) \subseteq Chosen(heap'[s])
                              /\ Chosen(heap'[s]) \ Chosen(heap[s]) \subseteq Names(Op)]_vars

\* resetting and choosing the main colour is the same as a new style with that colour
ResetIsNew ==
  \A s \in Live : \A c \in Given :
    LET x == heap[s]  y == SetMain(Reset(x), c)
        z == New([cls |-> Kind, colour |-> c, fill |-> "n", border |-> "n", text |-> "n", light |-> x.light, at |-> x.at])
    IN  y = z

\* inverting twice gives back the main colour and what was chosen; the rest follows the main colour
InvertedTwice ==
  \A s \in Live :
    LET x == heap[s]  y == Invert(Invert(x)) IN
    /\ y.main = x.main /\ y.at = x.at /\ y.light = x.light
    /\ Chosen(y) = Chosen(x)
    /\ \A a \in Chosen(x) : ColourOf(y, a) = ColourOf(x, a)
    /\ \A a \in Extra : ColourOf(Invert(x), a) # Unset
    /\ Chosen(x) = {} => Invert(x) = SetMain(Reset(x), Inv(x.main))

CopyIsEqual == [][\A s \in DOMAIN heap' \ Live : Op.op = "copy" => heap'[s] = heap[Op.s]]_vars
=============================================================================
