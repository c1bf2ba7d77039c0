----------------------------- MODULE ShowTrace -----------------------------
(* Web pages and OpenDocument texts of documents against ShowOps, token by      *)
(* token.                                                                     *)
(* run: [id, f, sections: <<doc>>, parts: <<[part, at, out]>>]; a record of a    *)
(* doc has, by place of its text, chars and shapes; style, spans and num.      *)
EXTENDS ShowOps, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run, part, bad

(* what XML cannot hold is left out (C15) *)
Legal(c) == c >= 32 /\ ~(55296 <= c /\ c <= 57343) /\ c \notin {65534, 65535}
Spelled(d, t) ==
  CASE t[1] = "c" -> IF Legal(d[t[2]].chars[t[3]]) THEN << <<"c", d[t[2]].chars[t[3]], d[t[2]].shapes[t[3]]>> >> ELSE <<>>
    [] t[1] = "i" -> IF d[t[2]].chars[t[3]] \in {9, 10, 13} THEN << <<"i", d[t[2]].chars[t[3]], 0>> >> ELSE <<>>
    [] t[1] = "A" -> << <<"A", d[t[2]].num, 0>> >>
    [] t[1] = "p" -> << <<"p">> \o d[t[2]].style >>
    [] t[1] = "l" -> << <<"l">> \o d[t[2]].spans >>
    [] OTHER -> << <<t[1], 0, 0>> >>
RECURSIVE Spell(_, _, _)
Spell(d, ts, k) == IF k > Len(ts) THEN <<>>
                   ELSE IF Len(ts) - k > 40 THEN Spell(d, SubSeq(ts, 1, k + 39), k) \o Spell(d, SubSeq(ts, k + 40, Len(ts)), 1)
                   ELSE Spelled(d, ts[k]) \o Spell(d, ts, k + 1)
RECURSIVE Each(_, _, _)
(* token lists of all sections, one after another *)
Each(secs, f, k) == IF k > Len(secs) THEN <<>>
                    ELSE Spell(secs[k], IF f \in {"HD", "FT"} THEN Areas(secs[k], f, 1) ELSE Shown(secs[k], f), 1) \o Each(secs, f, k + 1)
R == Runs[run]
P == R.parts[part + 1]
Due == CASE P.part = "page" -> Each(<<R.sections[P.at]>>, "html", 1)
         [] P.part = "body" -> Each(R.sections, "odt", 1)
         [] OTHER -> Each(R.sections, P.part, 1)
Init == run \in 1 .. Len(Runs) /\ part = 0 /\ bad = ""
(* first place where what came differs from what is due, or 0 *)
Differ(e, o) == LET n == IF Len(e) < Len(o) THEN Len(e) ELSE Len(o)
                    ds == { k \in 1 .. n : o[k] # e[k] }
                IN IF ds # {} THEN Min(ds) ELSE IF Len(e) = Len(o) THEN 0 ELSE n + 1
Next ==
  /\ bad = "" /\ part < Len(R.parts) /\ UNCHANGED run
  /\ part' = part + 1
  /\ \E e \in { Due } : \E k \in { Differ(e, P.out) } :
       bad' = IF k = 0 THEN ""
              ELSE ToString(k) \o ": " \o (IF k > Len(e) THEN "the end" ELSE ToString(e[k])) \o " due, " \o (IF k > Len(P.out) THEN "the end" ELSE ToString(P.out[k]))
Emit == bad # "" => PrintT("@@" \o ToJson([id |-> R.id, f |-> R.f, part |-> R.parts[part].part, at |-> R.parts[part].at, bad |-> bad]))
=============================================================================
