------------------------------- MODULE Outline -------------------------------
(***************************************************************************)
(* Indented outlines (G18).  A line is [ws, text]: its leading blanks as a  *)
(* sequence of "t" (tab) and "s" (space), and the rest ("" = empty line).   *)
(* The specification is declarative; StackParents below is the design of    *)
(* the parser (one stack of open lines), and MCOutline checks that both     *)
(* agree on every outline within its bounds.                                *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets

NoUnit == <<>>
IsEmpty(line) == line.text = ""

\* the unit: the one given, or else the first indentation found
UnitOf(lines, given) ==
  LET I == {i \in DOMAIN lines : lines[i].ws # <<>>}
  IN  IF given # NoUnit THEN given
      ELSE IF I = {} THEN NoUnit
      ELSE lines[CHOOSE i \in I : \A j \in I : i <= j].ws

\* how many units a line is indented, or -1 when that is not a whole number
LevelOf(line, unit) ==
  IF line.ws = <<>> THEN 0
  ELSE IF unit = NoUnit \/ Len(line.ws) % Len(unit) # 0 THEN -1
  ELSE IF \A i \in DOMAIN line.ws : line.ws[i] = unit[((i - 1) % Len(unit)) + 1]
       THEN Len(line.ws) \div Len(unit)
       ELSE -1

\* ----- what an outline means, given own : line -> level (of the lines with text) and has : the lines with text
Before(has, i) == {j \in has : j < i}
Last(S) == CHOOSE j \in S : \A k \in S : k <= j
Legal(has, own, i) ==
  /\ own[i] >= 0
  /\ own[i] <= (IF Before(has, i) = {} THEN 0 ELSE own[Last(Before(has, i))] + 1)
\* an empty line takes the place of a sibling of the line before it
EffLevel(has, own, i) ==
  IF i \in has THEN own[i] ELSE IF Before(has, i) = {} THEN 0 ELSE own[Last(Before(has, i))]
\* 0 stands for the root
ParentOf(has, own, i) ==
  LET v == EffLevel(has, own, i)
  IN  IF v = 0 THEN 0 ELSE Last({j \in Before(has, i) : own[j] = v - 1})

Meaning(lines, given) ==
  LET unit == UnitOf(lines, given)
      has == {i \in DOMAIN lines : ~IsEmpty(lines[i])}
      own == [i \in has |-> LevelOf(lines[i], unit)]
      bad == {i \in has : ~Legal(has, own, i)}
  IN  IF bad # {} THEN [ok |-> FALSE]
      ELSE [ok |-> TRUE,
            level |-> [i \in DOMAIN lines |-> EffLevel(has, own, i)],
            parent |-> [i \in DOMAIN lines |-> ParentOf(has, own, i)],
            text |-> [i \in DOMAIN lines |-> lines[i].text]]

\* ----- the design: one stack of open lines
RECURSIVE StackR(_, _, _, _, _, _)
StackR(lines, unit, i, stack, level, rows) ==
  IF i > Len(lines) THEN [ok |-> TRUE, level |-> [k \in DOMAIN rows |-> rows[k][1]], parent |-> [k \in DOMAIN rows |-> rows[k][2]],
                          text |-> [k \in DOMAIN lines |-> lines[k].text]]
  ELSE IF IsEmpty(lines[i])
       THEN StackR(lines, unit, i + 1, stack, level, Append(rows, <<level, IF level = 0 THEN 0 ELSE stack[level]>>))
  ELSE LET v == LevelOf(lines[i], unit) IN
       IF v < 0 \/ v > Len(stack) THEN [ok |-> FALSE]
       ELSE LET st == Append(SubSeq(stack, 1, v), i)
            IN  StackR(lines, unit, i + 1, st, v, Append(rows, <<v, IF v = 0 THEN 0 ELSE st[v]>>))
StackMeaning(lines, given) == StackR(lines, UnitOf(lines, given), 1, <<>>, 0, <<>>)
=============================================================================
