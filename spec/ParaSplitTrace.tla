-------------------------- MODULE ParaSplitTrace --------------------------
(* Converted paragraphs of documents against ParaSplit: what came out, in      *)
(* order, with shape, line and language, from the stored text and boundaries.  *)
(* run: [id, items: <<[c, p, w]>>  characters (c = code point) and controls     *)
(*       (c = -1 - code) at unit p; shapes, lines: <<[p, v]>>,                  *)
(*       out: <<[c, shape, line, lang]>>; drop: shapes/lines are out of order,  *)
(*       then only the characters are kept]                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run, k, pos, bad
R == Runs[run]
In(a, b, c) == a <= c /\ c <= b
LangOf(c) ==
  CASE In(44032, 55295, c) \/ In(4352, 4607, c) \/ In(12592, 12687, c) \/ In(43360, 43391, c) -> "ko"
    [] In(0, 64, c) -> ""
    [] In(65, 591, c) -> "en"
    [] In(19968, 40959, c) \/ In(11904, 12255, c) \/ In(13312, 19903, c) \/ In(63744, 64255, c) -> "cn"
    [] In(12288, 12351, c) -> "symbol"
    [] In(12352, 12543, c) -> "jp"
    [] OTHER -> "other"
Cover(s, p) == IF s = <<>> THEN 0 ELSE CHOOSE j \in 1 .. Len(s) : (j < Len(s) => s[j + 1].p > p) /\ \A m \in 1 .. j - 1 : s[m + 1].p <= p
Val(s, p) == IF s = <<>> THEN "none" ELSE s[Cover(s, p)].v
Text(j) == R.items[j].c >= 0
(* two neighbours in one run of text *)
Joined(a, b) == /\ Text(a) /\ Text(b)
                /\ Cover(R.shapes, R.items[a].p) = Cover(R.shapes, R.items[b].p)
                /\ Cover(R.lines, R.items[a].p) = Cover(R.lines, R.items[b].p)
(* the language of a run up to here; and when it has none yet, of what follows *)
RECURSIVE Back(_), Fore(_)
Fore(j) == IF LangOf(R.items[j].c) # "" THEN LangOf(R.items[j].c)
           ELSE IF j < Len(R.items) /\ Joined(j, j + 1) THEN Fore(j + 1) ELSE "ko"
Back(j) == IF LangOf(R.items[j].c) # "" THEN LangOf(R.items[j].c)
           ELSE IF j > 1 /\ Joined(j - 1, j) THEN Back(j - 1) ELSE ""
Lang(j) == LET b == Back(j) IN IF b # "" THEN b ELSE Fore(j)
Init == run \in 1 .. Len(Runs) /\ k = 0 /\ pos = 0 /\ bad = ""
Item == R.items[k + 1]
O == R.out[k + 1]
Next ==
  /\ bad = "" /\ k < Len(R.items) /\ UNCHANGED run
  /\ k' = k + 1 /\ pos' = pos + Item.w
  /\ bad' = IF Item.p # pos THEN "recorder"
            ELSE IF k >= Len(R.out) THEN "lost"
            ELSE IF O.c # Item.c THEN "order"
            ELSE IF ~R.drop /\ O.shape # Val(R.shapes, pos) THEN "shape"
            ELSE IF ~R.drop /\ O.line # Val(R.lines, pos) THEN "line"
            ELSE IF ~R.drop /\ Text(k + 1) /\ O.lang # Lang(k + 1) THEN "language"
            ELSE IF k + 1 = Len(R.items) /\ Len(R.out) > k + 1 THEN "too much" ELSE ""
Emit == (bad # "" \/ (k = 0 /\ Len(R.items) = 0 /\ Len(R.out) > 0)) =>
        PrintT("@@" \o ToJson([id |-> R.id, item |-> k, bad |-> IF bad = "" THEN "too much" ELSE bad]))
=============================================================================
