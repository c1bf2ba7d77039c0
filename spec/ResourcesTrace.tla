--------------------------- MODULE ResourcesTrace ----------------------------
(* What conversions took and gave back, in the order it happened.             *)
(* A run: [id, events, failed, ok, status, same, refused]; an event is        *)
(* <<what happened, which>>: "open"/"close" of an open file, "create"/"remove" *)
(* of a temporary file.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES run, at, opened, made, wrong
vars == <<run, at, opened, made, wrong>>
R == Data[run]
Init == run \in 1 .. Len(Data) /\ at = 1 /\ opened = {} /\ made = {} /\ wrong = ""
Step == /\ at <= Len(R.events) /\ wrong = ""
        /\ LET e == R.events[at] IN
           /\ opened' = CASE e[1] = "open" -> opened \cup {e[2]} [] e[1] = "close" -> opened \ {e[2]} [] OTHER -> opened
           /\ made' = CASE e[1] = "create" -> made \cup {e[2]} [] e[1] = "remove" -> made \ {e[2]} [] OTHER -> made
           /\ wrong' = CASE e[1] \in {"open", "create"} /\ e[2] \in opened \cup made -> "taken twice"
                         [] OTHER -> ""
        /\ at' = at + 1 /\ UNCHANGED run
Next == Step
Done == at > Len(R.events)
Verdict == CASE wrong # "" -> wrong
             [] opened # {} -> "left open"
             [] made # {} -> "temporary files left"
             [] R.descriptors # "" -> "descriptors left"
             [] R.files # "" -> "files left among temporary files"
             [] R.failed = "" /\ ~R.ok -> "fails without a failure"
             [] R.failed # "" /\ R.ok -> "failure is not reported"
             [] R.ok /\ ~R.same -> "result depends on what failed before"
             [] OTHER -> ""
Bad == (Done \/ wrong # "") /\ Verdict # ""
Emit == Bad => PrintT("@@" \o ToJson([id |-> R.id, bad |-> Verdict, opened |-> opened, made |-> made]))
=============================================================================
