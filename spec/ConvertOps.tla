---------------------------- MODULE ConvertOps ----------------------------
(* What a section converts to: from its records (k kind, lv level, text, cols,  *)
(* rc) to the events of the converted document.                                *)
(*                                                                            *)
(* kinds: P paragraph, F field, SD section definition, L paragraph list header  *)
(*        (cells among them), B table body; every other kind just keeps what    *)
(*        is below it.  Controls are the kinds with ctl = TRUE.                 *)
(* text: a sequence of "c" character, "i" control character of its own, "x"     *)
(*       place of the next control object, "e" end of a field, "|" next line.   *)
(* events: <<"<", name, id>>, <<">", name, id>> and <<"c" or "i", place in the  *)
(*       text>>.  Names are kinds, and S line, R row, Q column set.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Range(a, b) == [j \in 1 .. (IF b < a THEN 0 ELSE b - a + 1) |-> a + j - 1]

(* ---- the record tree ---- *)
Until(d, i) == LET after == { j \in i + 1 .. Len(d) : d[j].lv <= d[i].lv } IN IF after = {} THEN Len(d) ELSE Min(after) - 1
KidsIn(d, a, b, lv) == SelectSeq(Range(a, b), LAMBDA j : d[j].lv = lv)
Kids(d, i) == KidsIn(d, i + 1, Until(d, i), d[i].lv + 1)
Top(d) == KidsIn(d, 1, Len(d), 0)

S(n, i) == << <<"<", n, i>> >>
E(n, i) == << <<">", n, i>> >>
Opens(d, open) == [k \in 1 .. Len(open) |-> <<"<", d[open[k]].k, open[k]>>]
Closes(d, open) == [k \in 1 .. Len(open) |-> <<">", d[open[Len(open) + 1 - k]].k, open[Len(open) + 1 - k]>>]

RECURSIVE Inner(_, _), Kin(_, _, _), Paras(_, _, _, _, _), Toks(_, _, _, _), Rows(_, _, _, _)

(* acc: [ev, open, n, line]: events so far, fields open, controls used, line *)
Toks(d, i, j, acc) ==
  LET p == d[i] IN
  IF j > Len(p.text) THEN [acc EXCEPT !.ev = @ \o Closes(d, acc.open) \o E("S", acc.line)]
  ELSE LET t == p.text[j] IN Toks(d, i, j + 1,
    CASE t = "|" -> [acc EXCEPT !.ev = @ \o Closes(d, acc.open) \o E("S", acc.line) \o S("S", acc.line + 1) \o Opens(d, acc.open), !.line = @ + 1]
      [] t \in {"c", "i"} -> [acc EXCEPT !.ev = Append(@, <<t, j>>)]
      [] t = "e" -> IF acc.open = <<>> THEN acc
                    ELSE LET f == acc.open[Len(acc.open)]
                         IN [acc EXCEPT !.ev = @ \o E(d[f].k, f), !.open = SubSeq(@, 1, Len(@) - 1)]
      [] t = "x" -> LET ctls == SelectSeq(Kids(d, i), LAMBDA c : d[c].ctl)
                    IN IF acc.n >= Len(ctls) THEN [acc EXCEPT !.ev = Append(@, <<"i", j>>)]
                       ELSE LET c == ctls[acc.n + 1]
                            IN [acc EXCEPT !.ev = @ \o S(d[c].k, c) \o Inner(d, c) \o (IF d[c].k = "F" THEN <<>> ELSE E(d[c].k, c)),
                                           !.open = IF d[c].k = "F" THEN Append(@, c) ELSE @,
                                           !.n = @ + 1])

(* paragraphs ps of one list; q: inside a column set *)
Paras(d, ps, k, open, q) ==
  IF k > Len(ps) THEN IF q THEN E("Q", 0) ELSE <<>>
  ELSE LET i == ps[k]
           r == Toks(d, i, 1, [ev |-> S("S", 1) \o Opens(d, open), open |-> open, n |-> 0, line |-> 1])
       IN (IF d[i].cols THEN (IF q THEN E("Q", 0) ELSE <<>>) \o S("Q", 0) ELSE <<>>)
          \o S("P", i) \o r.ev \o E("P", i) \o Paras(d, ps, k + 1, r.open, q \/ d[i].cols)

(* how many of ks from position k on are paragraphs *)
RECURSIVE PRun(_, _, _)
PRun(d, ks, k) == IF k <= Len(ks) /\ d[ks[k]].k = "P" THEN 1 + PRun(d, ks, k + 1) ELSE 0
(* how many of ks from position k on are cells with their paragraphs *)
RECURSIVE CRun(_, _, _)
CRun(d, ks, k) == IF k <= Len(ks) /\ d[ks[k]].k \in {"P", "L"} THEN 1 + CRun(d, ks, k + 1) ELSE 0

(* the elements ks from position k on, which have the same parent *)
Kin(d, ks, k) ==
  IF k > Len(ks) THEN <<>>
  ELSE LET i == ks[k] IN
       CASE d[i].k = "P" -> LET n == PRun(d, ks, k) IN Paras(d, SubSeq(ks, k, k + n - 1), 1, <<>>, FALSE) \o Kin(d, ks, k + n)
         [] d[i].k = "L" -> LET n == PRun(d, ks, k + 1)
                            IN S("L", i) \o Inner(d, i) \o Paras(d, SubSeq(ks, k + 1, k + n), 1, <<>>, FALSE) \o E("L", i) \o Kin(d, ks, k + n + 1)
         [] d[i].k = "B" -> LET n == CRun(d, ks, k + 1)
                                cells == SubSeq(ks, k + 1, k + n)
                            IN S("B", i) \o Inner(d, i) \o Rows(d, cells, d[i].rc, 0) \o E("B", i) \o Kin(d, ks, k + n + 1)
         [] OTHER -> S(d[i].k, i) \o Inner(d, i) \o E(d[i].k, i) \o Kin(d, ks, k + 1)
(* below a record: all but the controls and the text of a paragraph, which Toks places *)
Inner(d, i) == Kin(d, Kids(d, i), 1)

(* rows of as many cells as declared; cells which are more than declared make one more row *)
Rows(d, cells, rc, n) ==
  IF n = 0 /\ rc = <<>> /\ cells = <<>> THEN <<>>
  ELSE LET firsts == SelectSeq(Range(1, Len(cells)), LAMBDA k : d[cells[k]].k = "L")
           want == IF rc = <<>> THEN Len(firsts) ELSE Head(rc)
           end == IF want >= Len(firsts) THEN Len(cells) ELSE firsts[want + 1] - 1
           rest == IF rc = <<>> THEN <<>> ELSE Tail(rc)
       IN S("R", 0) \o Kin(d, SubSeq(cells, 1, end), 1) \o E("R", 0) \o Rows(d, SubSeq(cells, end + 1, Len(cells)), rest, 0)

(* ---- the section: its first section definition encloses everything ---- *)
Body(d) == Kin(d, Top(d), 1)
RECURSIVE Match(_, _, _)
Match(ev, k, depth) == LET x == depth + (IF ev[k][1] = "<" THEN 1 ELSE IF ev[k][1] = ">" THEN -1 ELSE 0) IN IF x = 0 THEN k ELSE Match(ev, k + 1, x)
SecDefs(ev) == { k \in 1 .. Len(ev) : ev[k][1] = "<" /\ ev[k][2] = "SD" }
Section(d) ==
  LET ev == Body(d) IN
  IF SecDefs(ev) = {} THEN S("SD", 0) \o ev \o E("SD", 0)
  ELSE LET a == Min(SecDefs(ev)) b == Match(ev, a, 0)
       IN SubSeq(ev, a, b - 1) \o SubSeq(ev, 1, a - 1) \o SubSeq(ev, b + 1, Len(ev)) \o E("SD", ev[a][3])

(* ---- what is promised ---- *)
RECURSIVE Nest(_, _, _)
Nest(ev, k, st) == IF k > Len(ev) THEN st = <<>>
  ELSE CASE ev[k][1] = "<" -> Nest(ev, k + 1, Append(st, <<ev[k][2], ev[k][3]>>))
         [] ev[k][1] = ">" -> st # <<>> /\ st[Len(st)] = <<ev[k][2], ev[k][3]>> /\ Nest(ev, k + 1, SubSeq(st, 1, Len(st) - 1))
         [] OTHER -> st # <<>> /\ Nest(ev, k + 1, st)
Balanced(ev) == Nest(ev, 1, <<>>)
=============================================================================
