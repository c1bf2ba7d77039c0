------------------------------ MODULE TypeTree ------------------------------
(* The type of a record: its tag, the control code in it, and where it stands  *)
(* in the tree of records.  Records arrive in order with their level; the open *)
(* ancestors are a stack.  A table control remembers whether its body has been *)
(* seen: lists before it are captions, lists after it are cells.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kinds, N, MaxLevel
(* kinds of records: what the record itself says *)
Kind(k) == CASE k = "tbl"  -> [tag |-> 71, chid |-> "tbl ", own |-> "TableControl"]
             [] k = "gso"  -> [tag |-> 71, chid |-> "gso ", own |-> "GShapeObjectControl"]
             [] k = "head" -> [tag |-> 71, chid |-> "head", own |-> "Header"]
             [] k = "foot" -> [tag |-> 71, chid |-> "foot", own |-> "Footer"]
             [] k = "fn"   -> [tag |-> 71, chid |-> "fn  ", own |-> "FootNote"]
             [] k = "bokm" -> [tag |-> 71, chid |-> "bokm", own |-> "BookmarkControl"]
             [] k = "clk"  -> [tag |-> 71, chid |-> "%clk", own |-> "FieldClickHere"]
             [] k = "hlk"  -> [tag |-> 71, chid |-> "%hlk", own |-> "FieldHyperLink"]
             [] k = "zzzz" -> [tag |-> 71, chid |-> "zzzz", own |-> "Control"]
             [] k = "list" -> [tag |-> 72, chid |-> "", own |-> "ListHeader"]
             [] k = "body" -> [tag |-> 77, chid |-> "", own |-> "TableBody"]
             [] k = "data" -> [tag |-> 87, chid |-> "", own |-> "ControlData"]
             [] k = "shape" -> [tag |-> 76, chid |-> "$pic", own |-> "ShapeComponent"]
             [] k = "para" -> [tag |-> 66, chid |-> "", own |-> "Paragraph"]
             [] k = "unk"  -> [tag |-> 499, chid |-> "", own |-> "UnknownTagModel"]

VARIABLES doc, stack      \* stack: the open ancestors, [type, seen]
vars == <<doc, stack>>
Init == doc = <<>> /\ stack = <<>>

(* the ancestors of a record of level l: shallower records that are still open *)
Above(l) == SubSeq(stack, 1, l)
ParentType(l) == IF l = 0 THEN "" ELSE stack[l].type
BodySeen(l) == l > 0 /\ stack[l].seen

Special(k, l) ==
  LET p == ParentType(l) IN
  CASE k = "list" -> (CASE p = "TableControl" -> IF BodySeen(l) THEN "TableCell" ELSE "TableCaption"
                        [] p = "GShapeObjectControl" -> "GShapeObjectCaption"
                        [] p = "ShapeComponent" -> "TextboxParagraphList"
                        [] p = "Header" -> "HeaderParagraphList"
                        [] p = "Footer" -> "FooterParagraphList"
                        [] OTHER -> "ListHeader")
    [] k = "data" -> (CASE p = "BookmarkControl" -> "BookmarkControlData"
                        [] p = "FieldClickHere" -> "FieldClickHereData"
                        [] p = "SectionDef" -> "SectionDefData"
                        [] OTHER -> "ControlData")
    [] OTHER -> Kind(k).own

Record(k, l) ==
  /\ Len(doc) < N /\ l <= Len(stack) /\ l <= MaxLevel
  /\ LET t == Special(k, l)
         up == [i \in 1 .. l |-> IF i = l /\ k = "body" THEN [stack[i] EXCEPT !.seen = TRUE] ELSE stack[i]]
     IN /\ doc' = Append(doc, [kind |-> k, tag |-> Kind(k).tag, chid |-> Kind(k).chid, level |-> l, type |-> t,
                               two |-> k = "shape" /\ ParentType(l) = "GShapeObjectControl"])
        /\ stack' = Append(up, [type |-> t, seen |-> FALSE])
Next == \E k \in Kinds, l \in 0 .. MaxLevel : Record(k, l)

(* only a list after the body of its own table is a cell; a nested table has its own *)
ParentOf(i) == LET c == { j \in 1 .. i - 1 : doc[j].level = doc[i].level - 1 } IN
               IF doc[i].level = 0 THEN 0 ELSE CHOOSE j \in c : \A m \in c : m <= j
CellsFollowBody == \A i \in 1 .. Len(doc) :
  doc[i].type = "TableCell" <=> /\ doc[i].kind = "list" /\ doc[i].level > 0 /\ doc[ParentOf(i)].kind = "tbl"
                                /\ \E j \in ParentOf(i) + 1 .. i - 1 : doc[j].kind = "body" /\ doc[j].level = doc[i].level
ControlsByCode == \A i \in 1 .. Len(doc) : doc[i].tag = 71 => doc[i].type = Kind(doc[i].kind).own
Emit == Len(doc) = N => PrintT("@@" \o ToJson(doc))
=============================================================================
