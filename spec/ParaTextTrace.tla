--------------------------- MODULE ParaTextTrace ---------------------------
(* Recorded chunkings of real and random paragraph texts, unit by unit.       *)
(* run: [id, units: <<int>>, ok, chunks: <<[a, b, code, text: <<int>>]>>]       *)
(* code = -1 for text; ok = FALSE when the code reported an error.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
PT == INSTANCE ParaText WITH Alphabet <- {}, L <- 0, units <- <<>>, chunks <- <<>>, need <- 0
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run, c, pos, bad
R == Runs[run]
High(u) == u >= 55296 /\ u <= 56319
Low(u) == u >= 56320 /\ u <= 57343
Init == run \in 1 .. Len(Runs) /\ c = 1 /\ pos = 0 /\ bad = ""
(* what unit i of the text u[a+1..b] reads as: an unpaired surrogate is replaced *)
Reads(u, a, b, i) ==
  IF High(u[i]) /\ ~(i + 1 <= b /\ Low(u[i + 1])) THEN 65533
  ELSE IF Low(u[i]) /\ ~(i - 1 > a /\ High(u[i - 1])) THEN 65533
  ELSE u[i]
Check(ch, u) ==
  IF ch.a # pos THEN "gap"
  ELSE IF ch.code = -1
  THEN IF ch.b <= ch.a \/ ch.b > Len(u) THEN "extent"
       ELSE IF \E i \in ch.a + 1 .. ch.b : u[i] < 32 THEN "control in text"
       ELSE IF ch.b < Len(u) /\ u[ch.b + 1] >= 32 THEN "text ends early"
       ELSE IF Len(ch.text) # ch.b - ch.a THEN "text length"
       ELSE IF \E i \in ch.a + 1 .. ch.b : ch.text[i - ch.a] # Reads(u, ch.a, ch.b, i) THEN "text"
       ELSE ""
  ELSE IF ch.code # u[ch.a + 1] THEN "code"
  ELSE IF ch.b # ch.a + PT!Size(ch.code) THEN "size"
  ELSE IF ch.b > Len(u) THEN "cut control"
  ELSE ""
Next ==
  /\ bad = "" /\ UNCHANGED run
  /\ IF c <= Len(R.chunks)
     THEN /\ bad' = Check(R.chunks[c], R.units) /\ pos' = R.chunks[c].b /\ c' = c + 1
     ELSE /\ c = Len(R.chunks) + 1 /\ c' = c + 1 /\ pos' = pos
          /\ bad' = IF R.ok THEN (IF pos = Len(R.units) THEN "" ELSE "not covered") ELSE ""
(* an error is right exactly when the scan of the units ends inside a control *)
RECURSIVE ScanTo(_, _)
ScanTo(u, p) == IF p >= Len(u) THEN p ELSE ScanTo(u, p + (IF u[p + 1] < 32 THEN PT!Size(u[p + 1]) ELSE 1))
ErrorRight == c = 1 => R.ok = (ScanTo(R.units, 0) = Len(R.units))
Emit == bad # "" => PrintT("@@" \o ToJson([id |-> R.id, chunk |-> c - 1, bad |-> bad]))
EmitErr == (~ErrorRight) => PrintT("@@" \o ToJson([id |-> R.id, chunk |-> 0, bad |-> "error"]))
=============================================================================
