----------------------------- MODULE RandomModel -----------------------------
(***************************************************************************)
(* How a random graph comes about (G17): every ordered pair of numbers is  *)
(* decided once, by a coin that is certain at a probability of zero or one.*)
(***************************************************************************)
EXTENDS RandomOps, TLC

CONSTANTS MaxN

VARIABLES q, todo, edges
vars == <<q, todo, edges>>

ASSUME TLCSet(1, {})
Coin == CASE q.p = "low" -> {FALSE} [] q.p = "high" -> {TRUE} [] q.p = "mid" -> {TRUE, FALSE}

Init == /\ q \in [n : 0..MaxN, cycle : BOOLEAN, p : {"low", "mid", "high"}]
        /\ todo = (1..q.n) \X (1..q.n) /\ edges = {}
\* the order in which pairs are decided does not matter: the least one left is next
First == CHOOSE x \in todo : \A y \in todo : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Next == /\ todo # {}
        /\ \E c \in Coin : edges' = IF c /\ (q.cycle \/ First[1] < First[2]) THEN edges \cup {First} ELSE edges
        /\ todo' = todo \ {First} /\ q' = q
Spec == Init /\ [][Next]_vars

Sound == edges \subseteq Permitted(q)
Ends == todo = {} => /\ edges \in PossibleGraphs(q)
                     /\ q.p = "low" => edges = {}
                     /\ q.p = "high" => edges = Permitted(q)
Acyclic == ~q.cycle => \A x \in edges : x[1] < x[2]
\* one end for each possible graph: counted at the end of the search
Ended == TLCSet(1, IF todo = {} THEN TLCGet(1) \cup {<<q, edges>>} ELSE TLCGet(1))
Questions == [n : 0..MaxN, cycle : BOOLEAN, p : {"low", "mid", "high"}]
Counted == TLCGet(1) = UNION {{<<r, g>> : g \in PossibleGraphs(r)} : r \in Questions}
=============================================================================
