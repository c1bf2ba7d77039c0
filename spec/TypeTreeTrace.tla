--------------------------- MODULE TypeTreeTrace ---------------------------
(* Record types read from real documents against HwpLayout and TypeTree: the   *)
(* own type of a record follows from its tag and control code, the special     *)
(* type from its place.                                                        *)
(* data: [tag, code, place: names of HwpLayout's records by tag, control code  *)
(*        and "tag/place"; runs: <<[id, recs: <<[tag, chid, level, type]>>]>>]  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLES run, i, stack, bad
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Own(r) == IF r.tag = 71 THEN Get(Data.code, r.chid, "Control")
          ELSE Get(Data.tag, ToString(r.tag), "UnknownTagModel")
CtxOf(t, seen) == CASE t = "TableControl" -> IF seen THEN "tbl +" ELSE "tbl "
                    [] t = "GShapeObjectControl" -> "gso " [] t = "Header" -> "head" [] t = "Footer" -> "foot"
                    [] t = "ShapeComponent" -> "shape" [] t = "BookmarkControl" -> "bokm" [] t = "FieldClickHere" -> "%clk"
                    [] t = "SectionDef" -> "secd" [] OTHER -> "other"
TypeOf(r) == IF r.tag \notin {72, 87} \/ r.level = 0 THEN Own(r)
             ELSE Get(Data.place, ToString(r.tag) \o "/" \o CtxOf(stack[r.level].type, stack[r.level].seen), Own(r))
R == Data.runs[run].recs[i]
Init == run \in 1 .. Len(Data.runs) /\ i = 1 /\ stack = <<>> /\ bad = ""
Next == /\ i <= Len(Data.runs[run].recs) /\ bad = "" /\ UNCHANGED run /\ i' = i + 1
        /\ IF R.level > Len(stack) THEN bad' = "level" /\ UNCHANGED stack
           ELSE IF TypeOf(R) # R.type THEN bad' = TypeOf(R) /\ UNCHANGED stack
           ELSE /\ bad' = ""
                /\ stack' = Append([k \in 1 .. R.level |-> IF k = R.level /\ R.tag = 77 THEN [stack[k] EXCEPT !.seen = TRUE] ELSE stack[k]],
                                   [type |-> R.type, seen |-> FALSE])
Emit == bad # "" => PrintT("@@" \o ToJson([id |-> Data.runs[run].id, n |-> i - 1, want |-> bad]))
=============================================================================
