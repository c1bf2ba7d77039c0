-------------------------------- MODULE Show --------------------------------
(* All small sections, as web pages and as OpenDocument texts.                 *)
EXTENDS Convert, ShowOps

ShowControls == {"C", "F", "N", "T", "G", "SD", "CD", "TI", "GI", "HD", "FT", "A"}
ShowHolders == {"N", "HD", "FT", "T", "TI", "SC"}
ShowTables == {"T", "TI"}
ShowDrawings == {"G", "GI"}
ShowTexts == { <<>>, <<"c">>, <<"c", "x">>, <<"x", "c">>, <<"c", "i", "c">>, <<"c", "x", "c", "x">> }
(* in fields: their ends, and lines they go on in *)
FieldShow == { <<"x", "c", "e", "c">>, <<"x", "c", "x", "c">>, <<"c", "x", "|", "c", "e", "x">>, <<"c", "e", "c">>, <<"x", "i", "x", "c", "e", "|", "c">>, <<"x", "x", "c", "e", "e", "c">> }
(* in cells *)
CellTexts == { <<"c">>, <<"x">>, <<"c", "x", "c">>, <<"x", "c", "e">> }
GroupTexts == { <<"x">>, <<"c">> }
OddRows == {<<>>, <<1>>, <<0, 1>>, <<2>>}

H == Shown(doc, "html")
O == Shown(doc, "odt")
Same == Whole => LET ev == Out IN Transformed(ev, "html") = H /\ Transformed(ev, "odt") = O
(* ---- what is promised ---- *)
Above(i) == { j \in 1 .. i - 1 : doc[j].lv < doc[i].lv /\ \A m \in j + 1 .. i : doc[m].lv > doc[j].lv }
Under(i) == LET a == Above(i) IN IF a = {} THEN 0 ELSE CHOOSE j \in a : \A m \in a : m <= j
(* captions of tables, and of drawings *)
Caption(i) == Owner(i) # 0 /\ doc[Under(Owner(i))].k \in {"T", "TI", "G", "GI"}
              /\ ~\E j \in 1 .. Owner(i) - 1 : doc[j].k = "B" /\ Under(j) = Under(Owner(i))
VisibleIn(f, i) == (IF f = "html" THEN \A j \in Above(i) : doc[j].k \notin {"N", "HD", "FT"}
                    ELSE \A j \in Above(i) : doc[j].k \notin {"HD", "FT"})
                   /\ (f = "odt" => \A j \in Above(i) \cup {i} : doc[j].k = "P" => ~Caption(j))
Of(ts, t) == { q \in 1 .. Len(ts) : ts[q] = t }
(* every character of a section's paragraphs once, and none twice *)
KeptIn(ts, f) == \A i \in 1 .. Len(doc) : doc[i].k = "P" =>
    /\ Cardinality(Of(ts, <<"p", i>>)) = (IF VisibleIn(f, i) THEN 1 ELSE 0)
    /\ \A j \in 1 .. Len(doc[i].text) : doc[i].text[j] = "c" => Cardinality(Of(ts, <<"c", i, j>>)) = (IF VisibleIn(f, i) THEN 1 ELSE 0)
Kept == Whole => LET h == H o == O IN KeptIn(h, "html") /\ KeptIn(o, "odt")
(* what is not in the body of a web page is in its headers and footers, unless it is a note *)
Aside == Whole => LET hd == Areas(doc, "HD", 1) ft == Areas(doc, "FT", 1) IN
  \A i \in 1 .. Len(doc) : doc[i].k = "P" /\ (\E j \in Above(i) : doc[j].k \in {"HD", "FT"}) /\ (\A j \in Above(i) : doc[j].k # "N")
     => Of(hd, <<"p", i>>) # {} \/ Of(ft, <<"p", i>>) # {}
(* characters in their paragraph, in order; paragraphs of a list in order; ends where they belong *)
RECURSIVE Nested(_, _, _)
Nested(ts, k, st) == IF k > Len(ts) THEN st = <<>>
  ELSE CASE ts[k][1] = "/" -> st # <<>> /\ st[Len(st)][2] = ts[k][2] /\ Nested(ts, k + 1, SubSeq(st, 1, Len(st) - 1))
         [] ts[k][1] \in {"c", "i"} -> st # <<>> /\ st[Len(st)] = <<"p", ts[k][2]>> /\ Nested(ts, k + 1, st)
         [] ts[k][1] = "A" -> st # <<>> /\ st[Len(st)][1] = "p" /\ Nested(ts, k + 1, st)
         [] OTHER -> Nested(ts, k + 1, Append(st, ts[k]))
OrderedIn(ts) == \A q, r \in 1 .. Len(ts) : q < r =>
  LET a == ts[q] b == ts[r] IN
  /\ a[1] = "c" /\ b[1] = "c" /\ a[2] = b[2] => a[3] < b[3]
  /\ a[1] = "p" /\ b[1] = "p" /\ Owner(a[2]) = Owner(b[2]) /\ Under(a[2]) = Under(b[2]) => a[2] < b[2]
Ordered == Whole => LET h == H o == O IN Nested(h, 1, <<>>) /\ Nested(o, 1, <<>>) /\ OrderedIn(h) /\ OrderedIn(o)
(* cells of a table lie in it, in the table's order *)
Celled == Whole => LET h == H o == O IN \A ts \in {h, o} : \A q, r \in 1 .. Len(ts) :
  q < r /\ ts[q][1] = "l" /\ ts[r][1] = "l" /\ Under(ts[q][2]) = Under(ts[r][2]) => ts[q][2] < ts[r][2]
(* no table without rows, no row without cells: OpenDocument has none *)
Filled(ts) == \A q \in 1 .. Len(ts) - 1 : ts[q][1] \in {"t", "r"} => ts[q + 1][1] # "/"
Show == Whole => PrintT("@@" \o ToJson([doc |-> doc, html |-> H, odt |-> O, filled |-> Filled(O), head |-> Areas(doc, "HD", 1), foot |-> Areas(doc, "FT", 1)]))
=============================================================================
