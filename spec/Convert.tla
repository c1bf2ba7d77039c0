------------------------------ MODULE Convert ------------------------------
(* All small sections, built record by record, and what they convert to.       *)
EXTENDS ConvertOps, Json

CONSTANTS Kinds,      \* kinds of records
          Alphabet,   \* of texts
          MaxText, MaxRecs, MaxLevel,
          RowVecs,    \* declared cells of rows
          Cols        \* {FALSE}, or {FALSE, TRUE} when paragraphs may start column sets

(* values for RowVecs *)
NoRows == {<<>>}
OneRow == {<<1>>}
TwoRows == {<<1>>, <<0, 2>>}
FewRows == {<<>>, <<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 0, 1>>, <<2, 1>>}
ManyRows == UNION { [1 .. n -> 0 .. 3] : n \in 0 .. 3 }

Controls == {"C", "F", "N", "T", "G", "SD", "CD"}
Holders == {"N", "T", "SC"}      \* of paragraph lists
Tables == {"T"}
Drawings == {"G"}
TextsOf(n) == UNION { [1 .. k -> Alphabet] : k \in 0 .. n }
Proper(t) == \A j \in 1 .. Len(t) : t[j] = "|" => j > 1 /\ j < Len(t) /\ t[j - 1] # "|"
Texts == { t \in TextsOf(MaxText) : Proper(t) }
(* chosen texts instead, for deeper documents *)
NestTexts == { <<>>, <<"c">>, <<"x">>, <<"x", "c">>, <<"i", "x", "x">> }
FieldTexts == { <<"c">>, <<"x", "c">>, <<"c", "e">>, <<"x", "x", "c", "e">>, <<"e", "x", "|", "c", "e", "c">> }
LineTexts == { <<"c", "|", "c">>, <<"x", "|", "c", "e">>, <<"x", "c", "|", "x", "|", "e", "c">>, <<"e", "|", "e">>, <<"x", "e", "|", "x", "c">>, <<"c", "x", "|", "c", "|", "c">>, <<"e", "c", "|", "c", "e", "c">> }
OnlyTable == { <<"x">> }
OneTexts == { <<>>, <<"x">> }
TwoTexts == { <<>>, <<"x">>, <<"x", "x">> }
Xs(t) == Cardinality({ j \in 1 .. Len(t) : t[j] = "x" })

VARIABLES doc
vars == <<doc>>
Rec(k, lv, text, cols, rc) == [k |-> k, lv |-> lv, ctl |-> k \in Controls, text |-> text, cols |-> cols, rc |-> rc]
Init == doc = <<>>

(* the last record at level lv that is still open for records below it, or 0 *)
OpenAt(lv) == LET c == { j \in 1 .. Len(doc) : doc[j].lv = lv /\ \A m \in j + 1 .. Len(doc) : doc[m].lv > lv }
              IN IF c = {} THEN 0 ELSE CHOOSE j \in c : TRUE
Ctls(i) == Len(SelectSeq(Kids(doc, i), LAMBDA c : doc[c].ctl))
Full(i) == doc[i].k # "P" \/ Ctls(i) = Xs(doc[i].text)
(* a paragraph is complete once a record at its level or above follows *)
Complete(lv) == \A j \in 1 .. Len(doc) : doc[j].k = "P" /\ doc[j].lv >= lv => Full(j)

Parent(lv) == OpenAt(lv - 1)
LastKid(p) == LET ks == Kids(doc, p) IN IF ks = <<>> THEN "" ELSE doc[ks[Len(ks)]].k
Has(p, k) == \E j \in 1 .. Len(Kids(doc, p)) : doc[Kids(doc, p)[j]].k = k
Allowed(k, lv) ==
  IF lv = 0 THEN k = "P"
  ELSE LET p == Parent(lv) IN p # 0 /\
    CASE k \in Controls -> doc[p].k = "P" /\ Ctls(p) < Xs(doc[p].text)
      [] k = "L" -> doc[p].k \in Holders
      [] k = "P" -> doc[p].k \in Holders /\ LastKid(p) \in {"L", "P"}
      [] k = "B" -> doc[p].k \in Tables /\ ~Has(p, "B")
      [] k \in {"SC", "SG"} -> doc[p].k \in Drawings \cup {"SG"} /\ ~Has(p, k)
      [] k = "D" -> doc[p].k \in {"F", "C", "SD"} /\ ~Has(p, "D")
      [] OTHER -> FALSE
(* a table has one caption at most, before its body *)
Shape(k, lv) == k = "L" /\ doc[Parent(lv)].k \in Tables /\ ~Has(Parent(lv), "B") => ~Has(Parent(lv), "L")
Add(k, lv) ==
  /\ Len(doc) < MaxRecs /\ lv <= MaxLevel
  /\ Allowed(k, lv) /\ Shape(k, lv) /\ Complete(lv)
  /\ \E t \in (IF k = "P" THEN Texts ELSE {<<>>}), q \in (IF k = "P" THEN Cols ELSE {FALSE}), rc \in (IF k = "B" THEN RowVecs ELSE {<<>>}) :
       /\ Xs(t) <= MaxRecs - Len(doc) - 1
       /\ doc' = Append(doc, Rec(k, lv, t, q, rc))
Next == \E k \in Kinds, lv \in 0 .. MaxLevel : Add(k, lv)
Whole == doc # <<>> /\ \A i \in 1 .. Len(doc) : Full(i)

Out == Section(doc)
(* ---- C12: balanced ---- *)
IsBalanced == Whole => Balanced(Out)
Starts(ev, n, i) == { q \in 1 .. Len(ev) : ev[q] = <<"<", n, i>> }
(* ---- C11: every control object once, and at its place in the text ---- *)
Once == Whole => LET ev == Out IN \A i \in 1 .. Len(doc) : doc[i].k # "F" => Cardinality(Starts(ev, doc[i].k, i)) = 1
Placed == Whole => LET ev == Out IN \A i \in 1 .. Len(doc) : doc[i].k = "P" =>
  LET a == Min(Starts(ev, "P", i)) b == Match(ev, a, 0)
      (* my tokens, controls and lines only, at their first appearance *)
      mine == SelectSeq(Range(a + 1, b - 1), LAMBDA q :
                 LET ps == { x \in 1 .. q - 1 : ev[x][1] = "<" /\ ev[x][2] = "P" /\ Match(ev, x, 0) > q }   \* paragraphs around
                 IN a \in ps /\ (\A x \in ps : x <= a) /\ (ev[q][1] \in {"c", "i"} \/ (ev[q][1] = "<" /\ ev[q][2] \in Controls
                                     /\ \A z \in 1 .. q - 1 : ev[z] # ev[q])))
      shown == [m \in 1 .. Len(mine) |-> IF ev[mine[m]][1] = "<" THEN "x" ELSE ev[mine[m]][1]]
      text == SelectSeq(doc[i].text, LAMBDA t : t \in {"c", "i", "x"})
      sds == { j \in 1 .. Len(doc) : doc[j].k = "SD" }
  IN sds = {} => shown = text
(* ---- C13: rows hold what is declared ---- *)
RECURSIVE Take(_, _)
Take(rc, n) == IF rc = <<>> THEN IF n > 0 THEN <<n>> ELSE <<>>
               ELSE LET m == IF Head(rc) < n THEN Head(rc) ELSE n IN <<m>> \o Take(Tail(rc), n - m)
Rowed == Whole => LET ev == Out IN \A i \in 1 .. Len(doc) : doc[i].k = "B" =>
  LET a == Min(Starts(ev, "B", i)) b == Match(ev, a, 0)
      RECURSIVE At(_, _)     \* cells in each row from q on, at the level of the body
      At(q, acc) == IF q >= b THEN acc
                    ELSE CASE ev[q][1] = "<" /\ ev[q][2] = "R" ->
                           LET e == Match(ev, q, 0)
                               RECURSIVE Cells(_)
                               Cells(x) == IF x >= e THEN 0 ELSE 1 + Cells(Match(ev, x, 0) + 1)
                           IN At(e + 1, Append(acc, Cells(q + 1)))
                         [] OTHER -> At(Match(ev, q, 0) + 1, Append(acc, -1))
      parent == CHOOSE p \in 1 .. i : doc[p].lv = doc[i].lv - 1 /\ i <= Until(doc, p)
      cells == Cardinality({ j \in 1 .. Len(doc) : j > i /\ j <= Until(doc, parent) /\ doc[j].lv = doc[i].lv /\ doc[j].k = "L" })
  IN At(a + 1, <<>>) = Take(doc[i].rc, cells)
(* ---- C14: every paragraph lies in its list, or section ---- *)
Owner(i) == LET ks == { j \in 1 .. i - 1 : doc[j].lv = doc[i].lv /\ doc[j].k = "L" /\ \A m \in j + 1 .. i : doc[m].lv >= doc[i].lv }
            IN IF ks = {} THEN 0 ELSE CHOOSE j \in ks : \A m \in ks : m <= j
Owned == Whole => LET ev == Out IN \A i \in 1 .. Len(doc) : doc[i].k = "P" =>
  LET a == Min(Starts(ev, "P", i))
      around == { x \in 1 .. a - 1 : ev[x][1] = "<" /\ Match(ev, x, 0) > a }
      lists == { x \in around : ev[x][2] # "Q" }
      near == CHOOSE x \in lists : \A y \in lists : y <= x
  IN /\ (IF Owner(i) # 0 THEN ev[near] = <<"<", "L", Owner(i)>> ELSE ev[near][2] = "SD")
     /\ ev[1][2] = "SD" /\ Match(ev, 1, 0) = Len(ev)
     (* in the column set that the last paragraph with one started, or in none *)
     /\ LET sibs == { j \in 1 .. i : doc[j].k = "P" /\ doc[j].lv = doc[i].lv /\ Owner(j) = Owner(i) /\ doc[j].cols
                                     /\ \A m \in j .. i : doc[m].lv >= doc[i].lv }
            qs == { x \in around : ev[x][2] = "Q" /\ x > near }
        IN IF sibs = {} THEN qs = {}
           ELSE Cardinality(qs) = 1 /\ LET x == CHOOSE x \in qs : TRUE
                                          s == CHOOSE s \in sibs : \A m \in sibs : m <= s
                                      IN ev[x + 1] = <<"<", "P", s>>
(* ---- C12: every character lies in just the fields that are open at it in its list ---- *)
ListOf(i) == SelectSeq(Range(1, Len(doc)), LAMBDA j : doc[j].k = "P" /\ doc[j].lv = doc[i].lv /\ Owner(j) = Owner(i)
                        /\ \A m \in (IF j < i THEN j ELSE i) .. (IF j < i THEN i ELSE j) : doc[m].lv >= doc[i].lv)
RECURSIVE FieldsAt(_, _, _, _)
FieldsAt(ps, k, upto, open) ==   \* scan the list's texts up to <<paragraph, place>>
  IF k > Len(ps) \/ ps[k] > upto[1] THEN open
  ELSE LET ctls == SelectSeq(Kids(doc, ps[k]), LAMBDA c : doc[c].ctl)
           RECURSIVE Scan(_, _, _)
           Scan(j, n, o) == IF j > Len(doc[ps[k]].text) \/ (ps[k] = upto[1] /\ j >= upto[2]) THEN o
             ELSE LET t == doc[ps[k]].text[j] IN
                  CASE t = "x" -> Scan(j + 1, n + 1, IF doc[ctls[n + 1]].k = "F" THEN Append(o, ctls[n + 1]) ELSE o)
                    [] t = "e" -> Scan(j + 1, n, IF o = <<>> THEN o ELSE SubSeq(o, 1, Len(o) - 1))
                    [] OTHER -> Scan(j + 1, n, o)
       IN FieldsAt(ps, k + 1, upto, Scan(1, 0, open))
Enclosed == Whole => LET ev == Out IN \A i \in 1 .. Len(doc) : doc[i].k = "P" =>
  LET a == Min(Starts(ev, "P", i)) b == Match(ev, a, 0) ps == ListOf(i)
  IN \A q \in a + 1 .. b - 1 : ev[q][1] \in {"c", "i"} =>
       LET around == { x \in a .. q : ev[x][1] = "<" /\ Match(ev, x, 0) > q }
           para == CHOOSE x \in { x \in around : ev[x][2] = "P" } : \A y \in { y \in around : ev[y][2] = "P" } : y <= x
       IN para = a => { ev[x][3] : x \in { x \in around : ev[x][2] = "F" } } =
                      LET f == FieldsAt(ps, 1, <<i, ev[q][2]>>, <<>>) IN { f[k] : k \in 1 .. Len(f) }
Emit == Whole => PrintT("@@" \o ToJson([doc |-> doc, out |-> Out]))
=============================================================================
