------------------------------ MODULE ParaText ------------------------------
(* Text of a paragraph: 16-bit units, scanned from the front.                 *)
(* A unit below 32 starts a control character; which of them take one unit    *)
(* and which take eight is the table of the format.  Everything else is text.  *)
(* The seven units that follow the first of an eight-unit control belong to    *)
(* it whatever they are; the last of the eight repeats the code, which nobody  *)
(* relies on.  Input that ends inside a control is an error.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

One == {0, 10, 13} \cup (24 .. 31)
Extended == {1, 2, 3, 11, 12} \cup (14 .. 18) \cup (21 .. 23)
Inline == {4, 5, 6, 7, 8, 9, 19, 20}
Size(code) == IF code \in One THEN 1 ELSE 8
KindOf(code) == IF code \in One THEN "one" ELSE IF code = 9 THEN "tab" ELSE IF code \in Extended THEN "ext" ELSE "inl"

CONSTANTS Alphabet,  \* unit classes: "t" text, "hi", "lo" surrogates, "one", "ext", "inl", "tab"
          L          \* number of units

VARIABLES units, chunks, need
vars == <<units, chunks, need>>
Init == units = <<>> /\ chunks = <<>> /\ need = 0
P == Len(units)
Last == chunks[Len(chunks)]
InText == need = 0 /\ chunks # <<>> /\ Last.k = "text"
Grow == [chunks EXCEPT ![Len(chunks)].b = P + 1]
Open(k) == Append(chunks, [k |-> k, a |-> P, b |-> P + 1])

Scan(u) ==
  /\ P < L
  /\ units' = Append(units, u)
  /\ IF need > 0 THEN need' = need - 1 /\ chunks' = Grow
     ELSE IF u \in {"t", "hi", "lo"} THEN need' = 0 /\ chunks' = IF InText THEN Grow ELSE Open("text")
     ELSE /\ chunks' = Open(u)
          /\ need' = IF u = "one" THEN 0 ELSE 7
Next == \E u \in Alphabet : Scan(u)

Partition == /\ \A i \in 1 .. Len(chunks) : chunks[i].a = (IF i = 1 THEN 0 ELSE chunks[i - 1].b) /\ chunks[i].a < chunks[i].b
             /\ P = IF chunks = <<>> THEN 0 ELSE Last.b
Maximal == \A i \in 2 .. Len(chunks) : chunks[i].k = "text" => chunks[i - 1].k # "text"
Sizes == \A i \in 1 .. Len(chunks) :
           LET c == chunks[i] n == c.b - c.a IN
           CASE c.k = "text" -> \A j \in c.a + 1 .. c.b : units[j] \in {"t", "hi", "lo"}
             [] c.k = "one" -> n = 1
             [] OTHER -> n = IF i = Len(chunks) THEN 8 - need ELSE 8
Table == One \cup Extended \cup Inline = 0 .. 31 /\ One \cap Extended = {} /\ One \cap Inline = {} /\ Extended \cap Inline = {}
Emit == P = L => PrintT("@@" \o ToJson([units |-> units, chunks |-> chunks, ok |-> need = 0]))
EmitTable == PrintT("@@" \o ToJson([one |-> One, ext |-> Extended, inl |-> Inline]))
=============================================================================
