----------------------------- MODULE ObjectModel -----------------------------
(***************************************************************************)
(* Objects, the links between them as their owner makes and breaks them,   *)
(* and the walk by which relatives are found: one object of the current    *)
(* level at a time, the relatives not met before making up the next level. *)
(* TLC compares the walk with the distances of ObjectOps, checks the laws  *)
(* below in every small world, and (Emit) prints every question, which the *)
(* replay asks real objects after having made their links one by one.      *)
(***************************************************************************)
EXTENDS ObjectOps, Json, TLC

CONSTANTS
  Objects,     \* names of the objects
  MaxLinks,    \* at most this many links at a time
  Times,       \* at most this many between the same two
  Sides,       \* which lists a link is entered in: "both", "up", "down"
  Limits,      \* limits given, besides none
  Watch,       \* the questions that are asked: "ancestors", "descendants", "from_object"
  Emit

VARIABLES world, walk, last
vars == <<world, walk, last>>
View == <<world, walk>>

N == Cardinality(Objects)
Idle == [on |-> FALSE]
Resting == ~walk.on
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Links == Sum([x \in Objects |-> Len(world.down[x]) + Len(world.up[x])], Objects)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})

Number == 1
Reached(e) == TLCSet(Number, TLCGet(Number) + 1) /\ last' = [id |-> TLCGet(Number), from |-> last.id, op |-> e]
Show(e, out) == (Emit /\ e.op \in Watch) => PrintT("@@" \o ToJson([at |-> last.id, e |-> e, out |-> out]))
Announced == (Emit /\ Resting) => PrintT("##" \o ToJson([id |-> last.id, from |-> last.from, op |-> last.op]))

LinkA ==
  /\ Resting
  /\ \E a, b \in Objects, s \in Sides :
       /\ Links + (IF s = "both" THEN 2 ELSE 1) <= 2 * MaxLinks
       /\ s # "up" => Count(world.down[a], b) < Times
       /\ s # "down" => Count(world.up[b], a) < Times
       /\ LET e == [op |-> "link", a |-> a, b |-> b, sides |-> s] IN world' = Step(world, e) /\ Reached(e)
  /\ UNCHANGED walk

UnlinkA ==
  /\ Resting
  /\ \E a, b \in Objects, s \in Sides :
       /\ s # "up" => b \in Range(world.down[a])
       /\ s # "down" => a \in Range(world.up[b])
       /\ LET e == [op |-> "unlink", a |-> a, b |-> b, sides |-> s] IN world' = Step(world, e) /\ Reached(e)
  /\ UNCHANGED walk

Given == {[limited |-> FALSE, limit |-> 0]} \cup {[limited |-> TRUE, limit |-> k] : k \in Limits}

AskA ==
  /\ Resting
  /\ \E op \in {"ancestors", "descendants"} \cap Watch, x \in Objects, g \in Given :
       LET e == [op |-> op, obj |-> x, limited |-> g.limited, limit |-> g.limit] IN
       /\ Show(e, IF g.limited THEN "limited" ELSE "unlimited")
       /\ walk' = [on |-> TRUE, e |-> e, level |-> <<x>>, next |-> <<>>, met |-> {x}, groups |-> <<>>]
  /\ UNCHANGED <<world, last>>

BuildA ==
  /\ "from_object" \in Watch /\ Resting
  /\ \E x \in Objects, d, u \in Given :
       Show([op |-> "from_object", obj |-> x, dlimited |-> d.limited, dlimit |-> d.limit, ulimited |-> u.limited, ulimit |-> u.limit], "graph")
  /\ UNCHANGED vars

Lists == IF walk.e.op = "ancestors" THEN world.up ELSE world.down
Within == ~walk.e.limited \/ Len(walk.groups) < walk.e.limit
RECURSIVE News(_, _)
News(q, met) == IF q = <<>> THEN <<>> ELSE IF Head(q) \in met THEN News(Tail(q), met) ELSE <<Head(q)>> \o News(Tail(q), met \cup {Head(q)})

\* the relatives of the next object of the level
LookA ==
  /\ walk.on /\ Within /\ walk.level # <<>>
  /\ LET news == News(Lists[Head(walk.level)], walk.met) IN
     walk' = [walk EXCEPT !.level = Tail(@), !.next = @ \o news, !.met = @ \cup Range(news)]
  /\ UNCHANGED <<world, last>>
\* the level is done, the next one has objects
LevelA ==
  /\ walk.on /\ Within /\ walk.level = <<>> /\ walk.next # <<>>
  /\ walk' = [walk EXCEPT !.level = walk.next, !.next = <<>>, !.groups = Append(@, walk.next)]
  /\ UNCHANGED <<world, last>>
Done == walk.on /\ (~Within \/ (walk.level = <<>> /\ walk.next = <<>>))
AnswerA == Done /\ walk' = Idle /\ UNCHANGED <<world, last>>

None == [x \in Objects |-> <<>>]
Init == world = [up |-> None, down |-> None] /\ walk = Idle /\ TLCSet(Number, 0) /\ last = [id |-> 0, from |-> 0, op |-> [op |-> "start"]]
Next == LinkA \/ UnlinkA \/ AskA \/ BuildA \/ LookA \/ LevelA \/ AnswerA
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------------
\* the walk: what it has found so far are the first distances, each object once
Found == [i \in DOMAIN walk.groups |-> Range(walk.groups[i])]
WalkSound ==
  walk.on => LET all == Groups(Lists, walk.e.obj, FALSE, 0) IN
             /\ Len(walk.groups) <= Len(all)
             /\ Found = SubSeq(all, 1, Len(walk.groups))
             /\ \A i \in DOMAIN walk.groups : NoDup(walk.groups[i])
             /\ walk.met = {walk.e.obj} \cup UnionOf(Found) \cup Range(walk.next)
             /\ walk.e.obj \notin UnionOf(Found)
WalkAnswers == Done => Found = Groups(Lists, walk.e.obj, walk.e.limited, walk.e.limit)
\* and it ends
Left(k) == IF ~k.on THEN 0 ELSE 1 + 3 * (N - Cardinality(k.met)) + 2 * Len(k.next) + Len(k.level)
WalkEnds == [][walk.on => Left(walk') < Left(walk)]_vars
WorldStays == [][walk.on => world' = world]_vars

\* ---------------------------------------------------------------------------
\* the answers themselves
Agree == \A a, b \in Objects : Count(world.down[a], b) = Count(world.up[b], a)
Up(x, g) == Groups(world.up, x, g.limited, g.limit)
Down(x, g) == Groups(world.down, x, g.limited, g.limit)
All == [limited |-> FALSE, limit |-> 0]
AnswerLaws ==
  Resting =>
    /\ Agree => \A x, y \in Objects : \A k \in 1..N :
         (k \in DOMAIN Up(x, All) /\ y \in Up(x, All)[k]) <=> (k \in DOMAIN Down(y, All) /\ x \in Down(y, All)[k])
    /\ \A x \in Objects :
         /\ Len(Up(x, All)) < N /\ Len(Down(x, All)) < N
         /\ \A i, j \in DOMAIN Up(x, All) : i # j => Up(x, All)[i] \cap Up(x, All)[j] = {}
         /\ \A g \in Given : g.limited /\ g.limit <= 0 => Up(x, g) = <<>> /\ Down(x, g) = <<>>
         /\ \A g \in Given : g.limited /\ g.limit >= N - 1 => Up(x, g) = Up(x, All) /\ Down(x, g) = Down(x, All)

Question(x, d, u) == [obj |-> x, dlimited |-> d.limited, dlimit |-> d.limit, ulimited |-> u.limited, ulimit |-> u.limit]
Leq(g, h) == ~h.limited \/ (g.limited /\ g.limit <= h.limit)
Flip(w) == [up |-> w.down, down |-> w.up]
GraphLaws ==
  (Resting /\ Agree) =>
    \A x \in Objects : \A d, u \in Given :
      LET g == GraphOf(world, Question(x, d, u)) IN
      /\ x \in g.nodes
      /\ \A l \in g.links : l[1] \in g.nodes /\ l[2] \in g.nodes
      \* nothing is shown apart from the object: every node hangs on it by links shown
      /\ LET out == [n \in g.nodes |-> {m \in g.nodes : <<n, m>> \in g.links}] IN
         g.nodes = {x} \cup ReachPlus(out, x) \cup {n \in g.nodes : x \in ReachPlus(out, n)}
      \* a wider limit loses nothing
      /\ \A e, v \in Given : Leq(d, e) /\ Leq(u, v) =>
           LET h == GraphOf(world, Question(x, e, v)) IN g.nodes \subseteq h.nodes /\ g.links \subseteq h.links
      \* upwards is downwards with the links turned round
      /\ LET h == GraphOf(Flip(world), Question(x, u, d)) IN h.nodes = g.nodes /\ h.links = {<<l[2], l[1]>> : l \in g.links}
=============================================================================
