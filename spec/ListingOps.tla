----------------------------- MODULE ListingOps -----------------------------
(* What is listed of a stream of records, and what is selected of the list.   *)
(* A record is [lv, k, fill]: its level, what it is, and whether its payload   *)
(* holds just the fields ("full"), more ("extra") or less ("cut").            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC


(* ---- what a record is: P paragraph, T table, G drawing, H header, X other   *)
(* control, B table body, L list header, S page, K properties, U unknown      *)
ParentOf(d, i) == LET a == { j \in 1 .. i - 1 : d[j].lv < d[i].lv } IN IF a = {} THEN 0 ELSE Max(a)
BodyBefore(d, p, i) == \E j \in p + 1 .. i - 1 : d[j].k = "B" /\ ParentOf(d, j) = p
ListName(k, body) == CASE k = "T" -> IF body THEN "TableCell" ELSE "TableCaption"
                       [] k = "G" -> "GShapeObjectCaption"
                       [] k = "H" -> "HeaderParagraphList"
                       [] OTHER -> "ListHeader"
PlainName(k) == CASE k = "P" -> "Paragraph" [] k = "T" -> "TableControl" [] k = "G" -> "GShapeObjectControl"
                  [] k = "H" -> "Header" [] k = "X" -> "Control" [] k = "B" -> "TableBody" [] k = "S" -> "PageDef"
                  [] k = "K" -> "DocumentProperties" [] k = "U" -> "UnknownTagModel"
NameOf(d, i) == IF d[i].k # "L" THEN PlainName(d[i].k)
                ELSE LET p == ParentOf(d, i) IN IF p = 0 THEN "ListHeader" ELSE ListName(d[p].k, BodyBefore(d, p, i))
TagOf(k) == CASE k = "P" -> 66 [] k \in {"T", "G", "H", "X"} -> 71 [] k = "L" -> 72 [] k = "S" -> 73 [] k = "B" -> 77 [] k = "K" -> 16 [] k = "U" -> 500
TagName(t) == CASE t = 16 -> "HWPTAG_DOCUMENT_PROPERTIES" [] t = 66 -> "HWPTAG_PARA_HEADER" [] t = 71 -> "HWPTAG_CTRL_HEADER"
                [] t = 72 -> "HWPTAG_LIST_HEADER" [] t = 73 -> "HWPTAG_PAGE_DEF" [] t = 77 -> "HWPTAG_TABLE" [] OTHER -> "HWPTAG" \o ToString(t - 16)
(* the fields of a version, in bytes; late is from 5.0.0.7 on, and mid from 5.0.0.5 *)
Fields(name, late, mid) ==
  CASE name = "Paragraph" -> 22 [] name \in {"TableControl", "GShapeObjectControl"} -> IF mid THEN 44 ELSE 40
    [] name = "Header" -> 8 [] name = "Control" -> 4 [] name = "TableBody" -> IF late THEN 22 ELSE 20 [] name = "PageDef" -> 40
    [] name = "DocumentProperties" -> 26 [] name = "UnknownTagModel" -> 0 [] name = "ListHeader" -> 8 [] name = "TableCaption" -> 22
    [] name = "TableCell" -> 38 [] name = "GShapeObjectCaption" -> 22 [] name = "HeaderParagraphList" -> 18
SizeOf(name, fill, late, mid) == Fields(name, late, mid) + (IF fill = "extra" THEN 3 ELSE IF fill = "cut" THEN -1 ELSE 0)

(* ---- of named records [lv, name, tag, fill] ---- *)
Named(d) == [i \in 1 .. Len(d) |-> [lv |-> d[i].lv, name |-> NameOf(d, i), tag |-> TagOf(d[i].k), fill |-> d[i].fill]]
(* the first that cannot be read *)
CutIn(n, a, b) == LET c == { i \in a .. b : n[i].fill = "cut" } IN IF c = {} THEN b + 1 ELSE Min(c)
Listed(n, a, b) == [is |-> [x \in 1 .. CutIn(n, a, b) - a |-> a + x - 1], failed |-> CutIn(n, a, b) <= b]
Tops(n) == SelectSeq([i \in 1 .. Len(n) |-> i], LAMBDA i : i = 1 \/ n[i].lv = 0)
(* trees and places count from 0 *)
TreeEnd(n, t) == IF t + 2 <= Len(Tops(n)) THEN Tops(n)[t + 2] - 1 ELSE Len(n)
Holds(m, q) == /\ q.model \in {"", m.name}
               /\ q.tag \in {0, m.tag}
               /\ (q.incomplete => m.fill = "extra")
Selected(n, q) ==
  CASE q.k = "all"  -> Listed(n, 1, Len(n))
    [] q.k = "tree" -> IF q.a < Len(Tops(n)) THEN Listed(n, Tops(n)[q.a + 1], TreeEnd(n, q.a)) ELSE [is |-> <<>>, failed |-> FALSE]
    [] q.k = "nth"  -> LET c == CutIn(n, 1, Len(n)) IN
                       IF q.a + 1 < c THEN [is |-> IF q.a + 1 <= Len(n) THEN <<q.a + 1>> ELSE <<>>, failed |-> FALSE]
                       ELSE [is |-> <<>>, failed |-> c <= Len(n)]
    [] q.k = "find" -> LET l == Listed(n, 1, Len(n)) IN [is |-> SelectSeq(l.is, LAMBDA i : Holds(n[i], q)), failed |-> l.failed]
(* a search of documents, each some streams: every document is searched to its *)
(* end or to what cannot be read; the search fails if any could not            *)
RECURSIVE FoundIn(_, _, _)
FoundIn(ss, s, q) == IF s > Len(ss) THEN [is |-> <<>>, failed |-> FALSE]
  ELSE LET r == Selected(ss[s], q)
           here == [x \in 1 .. Len(r.is) |-> <<s, r.is[x]>>]
       IN IF r.failed THEN [is |-> here, failed |-> TRUE]
          ELSE LET rest == FoundIn(ss, s + 1, q) IN [is |-> here \o rest.is, failed |-> rest.failed]
Found(ds, q) == LET r == [f \in 1 .. Len(ds) |-> FoundIn(ds[f], 1, q)] IN
  [is |-> FlattenSeq([f \in 1 .. Len(ds) |-> [x \in 1 .. Len(r[f].is) |-> <<f>> \o r[f].is[x]]]),
   failed |-> \E f \in 1 .. Len(ds) : r[f].failed]
(* reading of a record: it starts, its fields, it ends with what is left *)
Events(n) == LET l == Listed(n, 1, Len(n)) IN
  FlattenSeq([x \in 1 .. Len(l.is) |-> << <<"S", x>>, <<"E", x>> >>]) \o (IF l.failed THEN << <<"S", Len(l.is) + 1>> >> ELSE <<>>)
=============================================================================
