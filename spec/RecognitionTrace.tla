------------------------- MODULE RecognitionTrace ----------------------------
(* What was observed when files were shown to the commands and to the         *)
(* programming interface.                                                     *)
EXTENDS RecognitionOps, HeaderOps, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLE run
Init == run \in 1 .. Len(Data)
Next == UNCHANGED run
R == Data[run]
Has(r, k) == k \in DOMAIN r
(* a file of known kind shown to a command; a list of files shown to one      *)
Cmd == CHOOSE c \in Commands : c.name = R.name /\ c.view = R.view
(* the first that is not done decides *)
First(fs, c) == LET bad == { i \in 1 .. Len(fs) : Outcome(fs[i], c) # "done" } IN
                IF bad = {} THEN "done" ELSE Outcome(fs[CHOOSE i \in bad : \A j \in bad : i <= j], c)
Verdict ==
  CASE R.kind = "command" -> Fits(R.o, Outcome(R.file, Cmd))
    [] R.kind = "files" -> LET w == First(R.files, Cmd) IN
         (* those before it may have printed *)
         IF w = "refused" THEN (IF R.o.raised # "" THEN "refusal is an exception" ELSE IF R.o.status = 0 THEN "refusal exits with success" ELSE IF ~R.o.message THEN "refusal has no message" ELSE "") ELSE Fits(R.o, w)
    [] R.kind = "interface" ->
         (* how the constructors and the test of files answer: "yes", "no" or something else *)
         LET want == IF Recognised(R.file) THEN "yes" ELSE "no" IN
         IF \E i \in 1 .. Len(R.answers) : R.answers[i][2] # want THEN "interface: " \o (LET i == CHOOSE i \in 1 .. Len(R.answers) : R.answers[i][2] # want IN R.answers[i][1]) ELSE ""
    [] R.kind = "consistent" ->
         (* a file of unknown kind: every surface answers the same way *)
         IF \E i \in 1 .. Len(R.answers) : R.answers[i][2] \notin {"yes", "no"} THEN "neither accepted nor refused by " \o (LET i == CHOOSE i \in 1 .. Len(R.answers) : R.answers[i][2] \notin {"yes", "no"} IN R.answers[i][1])
         ELSE IF Cardinality({ R.answers[i][2] : i \in 1 .. Len(R.answers) }) > 1 THEN "accepted here and refused there" ELSE ""
    [] R.kind = "header" ->
         IF R.version # Dotted(Version(R.bytes)) THEN "version" ELSE
         IF R.api # Version(R.bytes) THEN "version of the interface" ELSE
         IF R.lines # Lines(R.bytes, R.flagbytes) THEN "header" ELSE
         IF R.flags # Reported(R.flagbytes) THEN "flags of the interface" ELSE ""
    [] R.kind = "views" ->
         (* <<view, what the command shows, what the interface gives>> *)
         IF \E i \in 1 .. Len(R.views) : R.views[i][2] # R.views[i][3] THEN "views differ: " \o (LET i == CHOOSE i \in 1 .. Len(R.views) : R.views[i][2] # R.views[i][3] IN R.views[i][1]) ELSE ""
Emit == Verdict # "" => PrintT("@@" \o ToJson([id |-> R.id, bad |-> Verdict]))
=============================================================================
