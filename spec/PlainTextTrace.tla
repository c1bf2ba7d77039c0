--------------------------- MODULE PlainTextTrace ---------------------------
(* Plain texts of documents against PlainOps, character by character.          *)
(* run: [id, sections: <<doc>>, out: <<code point>>]; a record of a doc has its *)
(* characters in chars, one for each token of its text.                        *)
EXTENDS PlainOps, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run, sec, at, bad

NewLine == 10
Mark(k) == IF k = "T" THEN <<10, 60, 54364, 62, 10>> ELSE <<10, 60, 44536, 47548, 62, 10>>
(* what XML cannot hold is left out (C15) *)
Legal(c) == c >= 32 /\ ~(55296 <= c /\ c <= 57343) /\ c \notin {65534, 65535}
RECURSIVE Spell(_, _, _)
Codes(d, t) == CASE t[1] = "c" -> IF Legal(d[t[2]].chars[t[3]]) THEN <<d[t[2]].chars[t[3]]>> ELSE <<>>
                 [] t[1] = "n" -> <<NewLine>>
                 [] OTHER -> Mark(t[1])
Spell(d, ts, k) == IF k > Len(ts) THEN <<>>
                   ELSE IF Len(ts) - k > 40 THEN Spell(d, SubSeq(ts, 1, k + 39), k) \o Spell(d, SubSeq(ts, k + 40, Len(ts)), 1)
                   ELSE Codes(d, ts[k]) \o Spell(d, ts, k + 1)
Init == run \in 1 .. Len(Runs) /\ sec = 0 /\ at = 0 /\ bad = ""
R == Runs[run]
(* first place where what came differs from what is due, or 0 *)
Differ(e, o, from) == LET ds == { k \in 1 .. Len(e) : from + k > Len(o) \/ (from + k <= Len(o) /\ o[from + k] # e[k]) } IN IF ds = {} THEN 0 ELSE Min(ds)
Next ==
  /\ bad = "" /\ sec < Len(R.sections) /\ UNCHANGED run
  /\ sec' = sec + 1
  /\ \E e \in { Spell(R.sections[sec + 1], Plain(R.sections[sec + 1]), 1) } :
       \E k \in { Differ(e, R.out, at) } :
         /\ at' = IF k = 0 THEN at + Len(e) ELSE at + k
         /\ bad' = IF k = 0 THEN IF sec + 1 = Len(R.sections) /\ at + Len(e) < Len(R.out) THEN "too much" ELSE ""
                   ELSE IF at + k > Len(R.out) THEN "lost" ELSE ToString(e[k])
Emit == bad # "" => PrintT("@@" \o ToJson([id |-> R.id, sec |-> sec, at |-> at, bad |-> bad]))
=============================================================================
