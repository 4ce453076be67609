------------------------------ MODULE MCOutline ------------------------------
(* The stack design of the outline parser agrees with the meaning, on every outline within the bounds. *)
EXTENDS Outline, Naturals, Sequences, TLC

CONSTANTS MaxLines, MaxBlanks

Blanks == UNION {[1..k -> {"t", "s"}] : k \in 0..MaxBlanks}
Lines == {[ws |-> b, text |-> "x"] : b \in Blanks} \cup {[ws |-> <<>>, text |-> ""]}
Units == {<<>>, <<"t">>, <<"s", "s">>}

VARIABLES doc, given
Init == doc = <<>> /\ given \in Units
Next == Len(doc) < MaxLines /\ \E x \in Lines : doc' = Append(doc, x) /\ UNCHANGED given
Spec == Init /\ [][Next]_<<doc, given>>

Agree == StackMeaning(doc, given) = Meaning(doc, given)
\* a tree: parents come earlier, and the root is above everything
Tree == LET m == Meaning(doc, given) IN m.ok => \A i \in DOMAIN doc : m.parent[i] < i /\ (m.parent[i] = 0 <=> m.level[i] = 0)
\* an outline can only be spoilt by its lines so far: prefixes of legal outlines are legal
Prefixes == LET m == Meaning(doc, given)
            IN  (m.ok /\ doc # <<>>) => Meaning(SubSeq(doc, 1, Len(doc) - 1), given).ok
=============================================================================
