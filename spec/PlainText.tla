----------------------------- MODULE PlainText -----------------------------
(* All small sections and their plain text.                                    *)
EXTENDS Convert, PlainOps

PlainTexts == { <<>>, <<"c">>, <<"c", "x">>, <<"x", "c">>, <<"c", "i", "c">>, <<"c", "x", "c", "x">> }
Lines == { <<"c", "|", "c">>, <<"x", "|", "c", "e">>, <<"c", "x", "|", "x", "c">>, <<"i", "c", "|", "i", "x">> }

Text == Plain(doc)
(* the transformation of the converted section gives just that *)
Same == Whole => Transformed(Out) = Text
(* ---- what is promised ---- *)
(* a record is shown unless it lies in a table or in a drawing *)
Above(i) == { j \in 1 .. i - 1 : doc[j].lv < doc[i].lv /\ \A m \in j + 1 .. i : doc[m].lv > doc[j].lv }
Visible(i) == \A j \in Above(i) : doc[j].k \notin {"T", "G"}
Of(t) == { q \in 1 .. Len(Text) : Text[q] = t }
(* nothing lost, nothing twice *)
Kept == Whole => \A i \in 1 .. Len(doc) :
  /\ doc[i].k = "P" => /\ Cardinality(Of(<<"n", i>>)) = (IF Visible(i) THEN 1 ELSE 0)
                       /\ \A j \in 1 .. Len(doc[i].text) : Cardinality(Of(<<"c", i, j>>)) = (IF Visible(i) /\ doc[i].text[j] = "c" THEN 1 ELSE 0)
  /\ doc[i].k \in {"T", "G"} => Cardinality(Of(<<doc[i].k, i>>)) = (IF Visible(i) THEN 1 ELSE 0)
(* nothing moved: characters of a paragraph in their order, its end behind them, and nothing *)
(* but what its control objects contain between them; paragraphs of a list in their order      *)
Ordered == Whole => \A q, r \in 1 .. Len(Text) : q < r =>
  LET a == Text[q] b == Text[r] IN
  /\ a[2] = b[2] => a[1] = "c" /\ (b[1] = "n" \/ (b[1] = "c" /\ a[3] < b[3]))
  /\ a[1] = "c" /\ b[1] = "c" /\ a[2] = b[2] => \A s \in q + 1 .. r - 1 : Text[s][2] = a[2] \/ a[2] \in Above(Text[s][2])
  /\ doc[a[2]].k = "P" /\ doc[b[2]].k = "P" /\ b[2] < a[2] => b[2] \in Above(a[2])
Show == Whole => PrintT("@@" \o ToJson([doc |-> doc, text |-> Text]))
=============================================================================
