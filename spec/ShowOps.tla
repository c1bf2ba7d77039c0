------------------------------ MODULE ShowOps ------------------------------
(* Sections as web pages (HTML) and as OpenDocument texts (ODT), in tokens,     *)
(* from their records (see ConvertOps).  Kinds beyond those: TI, GI table and    *)
(* drawing in the line (T and G stand by themselves), N foot- or endnote, HD     *)
(* header, FT footer, A automatic number, SC component of a drawing, SG group of *)
(* components.                                                                *)
(* tokens: <<"c", i, j>> character at place j of paragraph i, <<"i", i, j>>      *)
(* control character there, <<"A", i>> number; <<k, i>> and <<"/", i>> start and *)
(* end of paragraph (p), table (t), caption (k), row (r), cell (l), drawing (g), *)
(* group (q), note (n).                                                                  *)
EXTENDS ConvertOps

TableKinds == {"T", "TI"}
DrawingKinds == {"G", "GI"}
Wrap(k, i, ts) == << <<k, i>> >> \o ts \o << <<"/", i>> >>

(* ---- from the records: what a reader expects ---- *)
(* control objects of a paragraph, as far as the text has places for them *)
Placed_(d, i) ==
  LET cs == SelectSeq(Kids(d, i), LAMBDA c : d[c].ctl)
      xs == Len(SelectSeq(d[i].text, LAMBDA t : t = "x"))
  IN SubSeq(cs, 1, IF xs < Len(cs) THEN xs ELSE Len(cs))

(* the paragraphs of a list, cells of a row *)
After(d, ks, n) == IF n = Len(ks) THEN <<>> ELSE SubSeq(ks, n + 1, Len(ks))
RECURSIVE Para(_, _, _), Line(_, _, _, _, _), Floats(_, _, _, _, _), Flow(_, _, _, _), Object(_, _, _), Cells(_, _, _, _), RowsOf(_, _, _, _, _)

(* f: "html" or "odt" *)
Inline(d, f, c) ==
  CASE d[c].k \in {"TI"} -> IF f = "html" THEN Object(d, f, c) ELSE <<>>
    [] d[c].k = "GI" -> Object(d, f, c)
    [] d[c].k = "G" -> IF f = "odt" THEN Object(d, f, c) ELSE <<>>
    [] d[c].k = "N" -> IF f = "odt" THEN Object(d, f, c) ELSE <<>>
    [] d[c].k = "A" -> IF f = "html" THEN << <<"A", c>> >> ELSE <<>>
    [] OTHER -> <<>>
Line(d, f, i, j, n) ==
  IF j > Len(d[i].text) THEN <<>>
  ELSE LET t == d[i].text[j] IN
       CASE t = "c" -> << <<"c", i, j>> >> \o Line(d, f, i, j + 1, n)
         [] t = "i" -> (IF f = "html" THEN << <<"i", i, j>> >> ELSE <<>>) \o Line(d, f, i, j + 1, n)
         [] t = "x" -> (IF n < Len(Placed_(d, i)) THEN Inline(d, f, Placed_(d, i)[n + 1]) ELSE <<>>) \o Line(d, f, i, j + 1, n + 1)
         [] OTHER -> Line(d, f, i, j + 1, n)
Floats(d, f, ks, k, kinds) == IF k > Len(ks) THEN <<>>
                              ELSE (IF d[ks[k]].k \in kinds THEN Object(d, f, ks[k]) ELSE <<>>) \o Floats(d, f, ks, k + 1, kinds)
Para(d, f, i) == Wrap("p", i, Line(d, f, i, 1, 0))
                 \o (IF f = "html" THEN Floats(d, f, Placed_(d, i), 1, {"T"}) \o Floats(d, f, Placed_(d, i), 1, {"G"})
                     ELSE Floats(d, f, Placed_(d, i), 1, TableKinds))
Flow(d, f, ks, k) == IF k > Len(ks) THEN <<>>
                     ELSE (IF d[ks[k]].k = "P" THEN Para(d, f, ks[k])
                           ELSE IF d[ks[k]].k \in {"SC", "SG"} THEN Flow(d, f, Kids(d, ks[k]), 1) ELSE <<>>) \o Flow(d, f, ks, k + 1)
(* the cells of one row: ks is list headers with their paragraphs *)
Cells(d, f, ks, k) ==
  IF k > Len(ks) THEN <<>>
  ELSE IF d[ks[k]].k = "L" THEN LET n == PRun(d, ks, k + 1) IN Wrap("l", ks[k], Flow(d, f, SubSeq(ks, k + 1, k + n), 1)) \o Cells(d, f, ks, k + n + 1)
  ELSE Para(d, f, ks[k]) \o Cells(d, f, ks, k + 1)
(* rows of a body, by the declared numbers of cells; what is left over is one more *)
RowsOf(d, f, b, rc, cells) ==
  IF rc = <<>> THEN IF cells = <<>> THEN <<>> ELSE Wrap("r", b, Cells(d, f, cells, 1))
  ELSE LET ls == SelectSeq(Range(1, Len(cells)), LAMBDA k : d[cells[k]].k = "L")
           n == IF Head(rc) < Len(ls) THEN ls[Head(rc) + 1] - 1 ELSE Len(cells)
       IN Wrap("r", b, Cells(d, f, SubSeq(cells, 1, n), 1)) \o RowsOf(d, f, b, Tail(rc), After(d, cells, n))
Object(d, f, c) ==
  LET ks == Kids(d, c)
      bs == { k \in 1 .. Len(ks) : d[ks[k]].k = "B" }
      b == IF bs = {} THEN Len(ks) + 1 ELSE Min(bs)
  IN CASE d[c].k \in TableKinds ->
            Wrap("t", c, (IF f = "html" /\ b > 1 THEN Wrap("k", ks[1], Flow(d, f, SubSeq(ks, 2, b - 1), 1)) ELSE <<>>)
                         \o (IF bs = {} THEN <<>> ELSE RowsOf(d, f, ks[b], d[ks[b]].rc, After(d, ks, b))))
       [] d[c].k \in DrawingKinds ->
            (* a caption comes before the components; ODT has none *)
            IF f = "html" THEN Wrap("g", c, Flow(d, f, ks, 1))
            ELSE LET RECURSIVE Each(_, _)
                     Each(xs, k) == IF k > Len(xs) THEN <<>>
                                    ELSE (CASE d[xs[k]].k = "SC" -> Wrap("g", xs[k], Flow(d, f, Kids(d, xs[k]), 1))
                                            [] d[xs[k]].k = "SG" -> Wrap("q", xs[k], Each(Kids(d, xs[k]), 1))
                                            [] OTHER -> <<>>) \o Each(xs, k + 1)
                 IN Each(ks, 1)
       [] OTHER -> Wrap("n", c, Flow(d, f, ks, 1))
SecDef(d) == LET s == { j \in 1 .. Len(d) : d[j].k = "SD" } IN IF s = {} THEN 0 ELSE Min(s)
Shown(d, f) == (IF SecDef(d) = 0 THEN <<>> ELSE Flow(d, f, Kids(d, SecDef(d)), 1)) \o Flow(d, f, Top(d), 1)
(* headers and footers, of a web page only *)
RECURSIVE Areas(_, _, _)
Areas(d, k, i) == IF i > Len(d) THEN <<>>
                  ELSE (IF d[i].k = k THEN Wrap("n", i, Flow(d, "html", Kids(d, i), 1)) ELSE <<>>) \o Areas(d, k, i + 1)

(* ---- from the events of the converted section: what the transformations do ---- *)
RECURSIVE Parts(_, _, _)
(* where the elements and characters between a and b start *)
Parts(ev, a, b) == IF a >= b THEN <<>>
                   ELSE IF ev[a][1] = "<" THEN LET e == Match(ev, a, 0) IN <<a>> \o Parts(ev, e + 1, b)
                   ELSE <<a>> \o Parts(ev, a + 1, b)
Content(ev, q) == Parts(ev, q + 1, Match(ev, q, 0))
RECURSIVE Some(_, _, _, _, _), One(_, _, _, _), Deep(_, _, _)
(* the elements qs of a paragraph i through the templates *)
Some(ev, f, qs, k, i) == IF k > Len(qs) THEN <<>> ELSE One(ev, f, qs[k], i) \o Some(ev, f, qs, k + 1, i)
Sel(ev, qs, names) == SelectSeq(qs, LAMBDA q : ev[q][1] = "<" /\ ev[q][2] \in names)
(* elements of these names below q whose nearest paragraph it is *)
Deep(ev, q, names) ==
  LET qs == Content(ev, q)
      RECURSIVE Go(_)
      Go(k) == IF k > Len(qs) THEN <<>>
               ELSE (IF ev[qs[k]][1] # "<" THEN <<>>
                     ELSE IF ev[qs[k]][2] \in names THEN <<qs[k]>>
                     ELSE IF ev[qs[k]][2] \in {"S", "F"} THEN Deep(ev, qs[k], names)
                     ELSE <<>>) \o Go(k + 1)
  IN Go(1)
All(ev, f, q, i) == Some(ev, f, Content(ev, q), 1, i)
One(ev, f, q, i) ==
  LET e == ev[q] IN
  CASE e[1] = "c" -> << <<"c", i, e[2]>> >>
    [] e[1] = "i" -> IF f = "html" THEN << <<"i", i, e[2]>> >> ELSE <<>>
    [] e[2] = "P" -> Wrap("p", e[3], Some(ev, f, Sel(ev, Content(ev, q), {"S"}), 1, e[3]))
                     \o (IF f = "html" THEN Some(ev, f, Deep(ev, q, {"T"}), 1, e[3]) \o Some(ev, f, Deep(ev, q, {"G"}), 1, e[3])
                         ELSE Some(ev, f, Deep(ev, q, {"T", "TI"}), 1, e[3]))
    [] e[2] \in {"S", "F"} ->
         Some(ev, f, SelectSeq(Content(ev, q), LAMBDA x : ev[x][1] # "<" \/ ev[x][2] \in
             (IF f = "html" THEN {"TI", "GI", "A", "F"} ELSE {"G", "GI", "N", "F"})), 1, i)
    [] e[2] \in TableKinds /\ f = "html" -> Wrap("t", e[3], LET qs == Content(ev, q)
                                                                 RECURSIVE Go(_)
                                                                 Go(k) == IF k > Len(qs) THEN <<>>
                                                                          ELSE (IF ev[qs[k]][2] = "L" THEN Wrap("k", ev[qs[k]][3], All(ev, f, qs[k], 0)) ELSE One(ev, f, qs[k], 0)) \o Go(k + 1)
                                                             IN Go(1))
    [] e[2] \in TableKinds -> Wrap("t", e[3], Some(ev, f, Sel(ev, Content(ev, q), {"B"}), 1, 0))
    [] e[2] = "B" -> LET rs == Sel(ev, Content(ev, q), {"R"})
                         RECURSIVE Go(_)
                         Go(k) == IF k > Len(rs) THEN <<>>
                                  ELSE Wrap("r", e[3], LET ls == Content(ev, rs[k])
                                                           RECURSIVE Gl(_)
                                                           Gl(m) == IF m > Len(ls) THEN <<>> ELSE (IF ev[ls[m]][2] = "L" THEN Wrap("l", ev[ls[m]][3], All(ev, f, ls[m], 0)) ELSE IF f = "html" THEN One(ev, f, ls[m], 0) ELSE <<>>) \o Gl(m + 1)
                                                       IN Gl(1)) \o Go(k + 1)
                     IN Go(1)
    [] e[2] \in DrawingKinds -> IF f = "html" THEN Wrap("g", e[3], All(ev, f, q, 0)) ELSE Some(ev, f, Sel(ev, Content(ev, q), {"SC", "SG"}), 1, 0)
    [] e[2] = "SG" /\ f = "odt" -> Wrap("q", e[3], Some(ev, f, Sel(ev, Content(ev, q), {"SC", "SG"}), 1, 0))
    [] e[2] = "SC" /\ f = "odt" -> Wrap("g", e[3], All(ev, f, q, 0))
    [] e[2] = "N" -> Wrap("n", e[3], All(ev, f, q, 0))
    [] e[2] = "A" -> << <<"A", e[3]>> >>
    [] OTHER -> All(ev, f, q, 0)
(* what is not in a paragraph is seen through *)
Transformed(ev, f) == All(ev, f, 1, 0)
=============================================================================
