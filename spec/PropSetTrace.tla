----------------------------- MODULE PropSetTrace -----------------------------
(* Recorded decodes of property set streams against the format.               *)
EXTENDS OleProps, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)

VARIABLES r, k          \* the recording, the set in it
vars == <<r, k>>
Init == r = 1 /\ k = 0
Rec == Data[r]
Next == \/ r <= Len(Data) /\ k < Len(Rec.sets) /\ k' = k + 1 /\ UNCHANGED r
        \/ r < Len(Data) /\ k = Len(Rec.sets) /\ r' = r + 1 /\ k' = 0

AsSet(s) == { s[i] : i \in 1 .. Len(s) }
Verdict == LET want == Reports(Rec.bytes, k - 1) got == AsSet(Rec.sets[k]) IN
           CASE Len(Rec.sets[k]) # Cardinality(want) -> "number"
             [] { x.id : x \in got } # { x.id : x \in want } -> "ids"
             [] got # want -> "content"
             [] OTHER -> "ok"
Complete == k = 0 => Len(Rec.sets) = SetCount(Rec.bytes)
Check == IF ~Complete THEN PrintT("@@" \o ToJson([rec |-> r, set |-> 0, verdict |-> "sets"]))
         ELSE k > 0 => (Verdict = "ok" \/ PrintT("@@" \o ToJson([rec |-> r, set |-> k, verdict |-> Verdict,
                            missing |-> Reports(Rec.bytes, k - 1) \ AsSet(Rec.sets[k])])))
=============================================================================
