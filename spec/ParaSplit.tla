----------------------------- MODULE ParaSplit -----------------------------
(* A paragraph's characters and controls, each with the character shape and    *)
(* the line whose range covers its first unit, and each character with the     *)
(* language its run gives it.  Ranges start where their boundaries say, the    *)
(* first one at the start whatever it says; a control or a character of two    *)
(* units is never divided.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Classes,    \* "n" no language of its own, "ko", "en", ..., "w" two units; "c1", "c8" controls
          N, Positions, MaxShapes, MaxLines, Sorted

Width(c) == CASE c \in {"w"} -> 2 [] c = "c8" -> 8 [] OTHER -> 1
IsText(c) == c \notin {"c1", "c8"}
Up(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
SeqsOf(S, n) == UNION { [1 .. k -> S] : k \in 0 .. n }

VARIABLES items, shapes, lines, i, pos, out
vars == <<items, shapes, lines, i, pos, out>>
Init == /\ items \in SeqsOf(Classes, N)
        /\ shapes \in { s \in SeqsOf(Positions, MaxShapes) : Sorted => Up(s) }
        /\ lines \in { s \in SeqsOf(Positions, MaxLines) : Sorted => Up(s) }
        /\ i = 1 /\ pos = 0 /\ out = <<>>

(* which range covers p: 0 when there are no boundaries *)
Cover(s, p) == IF s = <<>> THEN 0 ELSE CHOOSE k \in 1 .. Len(s) : /\ k < Len(s) => s[k + 1] > p
                                                                 /\ \A j \in 1 .. k - 1 : s[j + 1] <= p
Take == /\ i <= Len(items)
        /\ out' = Append(out, [c |-> items[i], pos |-> pos, shape |-> Cover(shapes, pos), line |-> Cover(lines, pos)])
        /\ pos' = pos + Width(items[i]) /\ i' = i + 1
        /\ UNCHANGED <<items, shapes, lines>>
Next == Take
Done == i > Len(items)

(* the run of text around a character: same shape, same line, no control between *)
SameRun(a, b) == \A k \in a .. b : IsText(out[k].c) /\ out[k].shape = out[a].shape /\ out[k].line = out[a].line
Strong(k) == IsText(out[k].c) /\ out[k].c # "n"
LangName(c) == IF c = "w" THEN "other" ELSE c
Lang(k) ==
  IF ~IsText(out[k].c) THEN ""
  ELSE LET before == { j \in 1 .. k : Strong(j) /\ SameRun(j, k) }
           after == { j \in k .. Len(out) : Strong(j) /\ SameRun(k, j) }
       IN IF before # {} THEN LangName(out[CHOOSE j \in before : \A m \in before : m <= j].c)
          ELSE IF after # {} THEN LangName(out[CHOOSE j \in after : \A m \in after : j <= m].c)
          ELSE "ko"

Covers == Sorted => \A k \in 1 .. Len(out) :
   /\ shapes # <<>> => LET j == out[k].shape IN (j = 1 \/ shapes[j] <= out[k].pos) /\ (j = Len(shapes) \/ out[k].pos < shapes[j + 1])
   /\ lines # <<>> => LET j == out[k].line IN (j = 1 \/ lines[j] <= out[k].pos) /\ (j = Len(lines) \/ out[k].pos < lines[j + 1])
Ordered == \A k \in 1 .. Len(out) - 1 : /\ out[k].pos + Width(out[k].c) = out[k + 1].pos
                                        /\ out[k].shape <= out[k + 1].shape /\ out[k].line <= out[k + 1].line
Kept == Done => [k \in 1 .. Len(out) |-> out[k].c] = items
Emit == Done => PrintT("@@" \o ToJson([items |-> items, shapes |-> shapes, lines |-> lines,
            out |-> [k \in 1 .. Len(out) |-> <<out[k].shape, out[k].line, Lang(k)>>]]))
=============================================================================
