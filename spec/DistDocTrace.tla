----------------------------- MODULE DistDocTrace -----------------------------
(* Recorded decodes of heads, and of the first blocks of their tails.          *)
EXTENDS DistHead, Aes, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.DATA)
VARIABLE r
Init == r \in 1 .. Len(Data)
Next == UNCHANGED r
Rec == Data[r]
Verdict == CASE Rec.digest # Digest(Rec.head) -> "digest"
             [] Rec.key # Key(Rec.head) -> "key"
             [] Rec.plain # Decrypt(Key(Rec.head), Rec.tail) -> "tail"
             [] OTHER -> "ok"
Check == Verdict = "ok" \/ PrintT("@@" \o ToJson([rec |-> r, verdict |-> Verdict]))
=============================================================================
