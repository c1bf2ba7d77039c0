------------------------------- MODULE TreeOp -------------------------------
(* From a level-annotated sequence of items to start/end events, ancestors   *)
(* and sub-trees.  Items are 1..n, `levels[i]` their level relative to the   *)
(* first item (the base level is a parameter of the behaviours only).        *)
EXTENDS Naturals, Integers, Sequences, TLC, Json

CONSTANTS MaxLen, MaxLevel, Bases

VARIABLES levels,   \* the sequence fed so far
          stack,    \* open items, outermost first
          events,   \* <<"s"|"e", item>> in order
          parent,   \* parent[i]: 0 for the root
          mode      \* "feed" | "done" | "refused"
vars == <<levels, stack, events, parent, mode>>

Last(s) == s[Len(s)]
Init == levels = <<>> /\ stack = <<>> /\ events = <<>> /\ parent = <<>> /\ mode = "feed"

(* events that end the open items deeper than or at level l *)
RECURSIVE Ends(_, _)
Ends(s, l) == IF Len(s) > l THEN <<<<"e", Last(s)>>>> \o Ends(SubSeq(s, 1, Len(s) - 1), l) ELSE <<>>

Legal(l) == l <= Len(stack)
Feed(l) ==
  /\ mode = "feed" /\ Len(levels) < MaxLen
  /\ (levels = <<>> => l = 0)
  /\ levels' = Append(levels, l)
  /\ IF Legal(l)
     THEN LET i == Len(levels) + 1
              s == SubSeq(stack, 1, l)
          IN /\ events' = events \o Ends(stack, l) \o <<<<"s", i>>>>
             /\ stack' = Append(s, i)
             /\ parent' = Append(parent, IF s = <<>> THEN 0 ELSE Last(s))
             /\ mode' = "feed"
     ELSE /\ mode' = "refused" /\ UNCHANGED <<stack, events, parent>>
Finish == /\ mode = "feed" /\ mode' = "done"
          /\ events' = events \o Ends(stack, 0) /\ stack' = <<>>
          /\ UNCHANGED <<levels, parent>>
Next == (\E l \in 0 .. MaxLevel : Feed(l)) \/ Finish

--------------------------------------------------------------------------------
IndexOf(e) == CHOOSE k \in 1 .. Len(events) : events[k] = e
Started == { events[k][2] : k \in { j \in 1 .. Len(events) : events[j][1] = "s" } }

Balanced ==
  mode = "done" =>
    /\ Started = 1 .. Len(levels) /\ Len(events) = 2 * Len(levels)
    /\ \A i \in 1 .. Len(levels) :
         \E a, b \in 1 .. Len(events) : /\ a < b /\ events[a] = <<"s", i>> /\ events[b] = <<"e", i>>
                \* whatever starts between ends between
                /\ \A k \in a + 1 .. b - 1 : \E m \in a + 1 .. b - 1 :
                      events[m] = <<IF events[k][1] = "s" THEN "e" ELSE "s", events[k][2]>>
InOrder == \A i, j \in Started : i < j => IndexOf(<<"s", i>>) < IndexOf(<<"s", j>>)
NearestParent ==
  \A i \in 1 .. Len(parent) :
     LET c == { j \in 1 .. i - 1 : levels[j] < levels[i] } IN
       IF levels[i] = 0 THEN parent[i] = 0
       ELSE /\ parent[i] \in c /\ levels[parent[i]] = levels[i] - 1
            /\ \A j \in parent[i] + 1 .. i - 1 : levels[j] >= levels[i]
RefusedIff == mode = "refused" <=>
               \E i \in 2 .. Len(levels) : levels[i] > levels[i - 1] + 1

--------------------------------------------------------------------------------
RECURSIVE Anc(_)
Anc(i) == IF i = 0 THEN <<>> ELSE Anc(parent[i]) \o <<i>>
Ancestors == [i \in 1 .. Len(parent) |-> Anc(parent[i])]
(* the forest as nested sequences <<item, children>> *)
Children(p) == SelectSeq([i \in 1 .. Len(parent) |-> i], LAMBDA i : parent[i] = p)
RECURSIVE Tree(_)
Tree(i) == <<i, [k \in 1 .. Len(Children(i)) |-> Tree(Children(i)[k])]>>
Forest == [k \in 1 .. Len(Children(0)) |-> Tree(Children(0)[k])]

Emit == mode # "feed" =>
  PrintT("@@" \o ToJson([lv |-> levels, ev |-> events, anc |-> Ancestors, forest |-> Forest, mode |-> mode]))
=============================================================================
