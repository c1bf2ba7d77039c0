------------------------------ MODULE PlainOps ------------------------------
(* The plain text of a section, from its records (see ConvertOps), in tokens:   *)
(* <<"c", i, j>> the character at place j of paragraph i, <<"n", i>> the end of  *)
(* paragraph i, <<"T", i>> and <<"G", i>> the marks of table and drawing i.     *)
EXTENDS ConvertOps

(* ---- from the records: what a reader expects ---- *)
RECURSIVE OfPara(_, _, _, _, _), OfParas(_, _, _, _), OfControl(_, _, _)
(* hoisted: the section definition whose content was shown before, or 0 *)
OfPara(d, h, i, j, n) ==
  IF j > Len(d[i].text) THEN << <<"n", i>> >>
  ELSE LET t == d[i].text[j] IN
       CASE t = "c" -> << <<"c", i, j>> >> \o OfPara(d, h, i, j + 1, n)
         [] t = "x" -> LET cs == SelectSeq(Kids(d, i), LAMBDA c : d[c].ctl)
                       IN (IF n >= Len(cs) THEN <<>> ELSE OfControl(d, h, cs[n + 1])) \o OfPara(d, h, i, j + 1, n + 1)
         [] OTHER -> OfPara(d, h, i, j + 1, n)
OfParas(d, h, ks, k) == IF k > Len(ks) THEN <<>>
                        ELSE (IF d[ks[k]].k = "P" THEN OfPara(d, h, ks[k], 1, 0) ELSE <<>>) \o OfParas(d, h, ks, k + 1)
OfControl(d, h, c) ==
  CASE d[c].k = "T" -> << <<"T", c>> >>
    [] d[c].k = "G" -> << <<"G", c>> >>
    [] c = h -> <<>>
    [] OTHER -> OfParas(d, h, Kids(d, c), 1)
SecDef(d) == LET s == { j \in 1 .. Len(d) : d[j].k = "SD" } IN IF s = {} THEN 0 ELSE Min(s)
Plain(d) == LET h == SecDef(d) IN (IF h = 0 THEN <<>> ELSE OfParas(d, h, Kids(d, h), 1)) \o OfParas(d, h, Top(d), 1)

(* ---- from the events of the converted section: what the transformation does  *)
(* acc: [out, st paragraphs around, skip elements around that are not shown]     *)
RECURSIVE Walk(_, _, _)
Walk(ev, k, acc) ==
  IF k > Len(ev) THEN acc.out
  ELSE LET e == ev[k] IN Walk(ev, k + 1,
    CASE acc.skip > 0 -> [acc EXCEPT !.skip = @ + (IF e[1] = "<" THEN 1 ELSE IF e[1] = ">" THEN -1 ELSE 0)]
      [] e[1] = "c" -> [acc EXCEPT !.out = Append(@, <<"c", acc.st[Len(acc.st)], e[2]>>)]
      [] e[1] = "<" /\ e[2] \in {"T", "G"} -> [acc EXCEPT !.out = Append(@, <<e[2], e[3]>>), !.skip = 1]
      [] e[1] = "<" /\ e[2] = "P" -> [acc EXCEPT !.st = Append(@, e[3])]
      [] e[1] = ">" /\ e[2] = "P" -> [acc EXCEPT !.out = Append(@, <<"n", e[3]>>), !.st = SubSeq(@, 1, Len(@) - 1)]
      [] OTHER -> acc)
Transformed(ev) == Walk(ev, 1, [out |-> <<>>, st |-> <<>>, skip |-> 0])
=============================================================================
