---------------------------- MODULE Recognition ------------------------------
(* Sessions: files are shown to commands, one after the other.                *)
EXTENDS RecognitionOps, Json

CONSTANTS Containers, Lengths, Positions, MaxRuns

Headers == {<<"good", 0>>, <<"long", 0>>, <<"missing", 0>>, <<"storage", 0>>} \cup { <<"short", n>> : n \in Lengths } \cup { <<"byte", n>> : n \in Positions }
Good == [container |-> "ole", header |-> <<"good", 0>>, damage |-> ""]
Files == { [container |-> c, header |-> <<"missing", 0>>, damage |-> ""] : c \in Containers \ {"ole"} }
         \cup { [container |-> "ole", header |-> h, damage |-> ""] : h \in Headers }
         \cup { [container |-> "ole", header |-> <<"good", 0>>, damage |-> d] : d \in Damages }

VARIABLES session, last
Init == session = <<>> /\ last = ""
Show1(f, c) == /\ Len(session) < MaxRuns
               /\ session' = Append(session, [file |-> f, command |-> c, outcome |-> Outcome(f, c)])
               /\ last' = Outcome(f, c)
Next == \E f \in Files, c \in Commands : Show1(f, c)

--------------------------------------------------------------------------------
(* what is done for a file does not depend on what was done before *)
Stateless == \A i, j \in 1 .. Len(session) : (session[i].file = session[j].file /\ session[i].command = session[j].command) => session[i].outcome = session[j].outcome
(* what is refused is refused by every command that wants a document *)
Uniform == \A i, j \in 1 .. Len(session) :
             (session[i].file = session[j].file /\ session[i].command.view # "ole" /\ session[j].command.view # "ole") => (session[i].outcome = "refused" <=> session[j].outcome = "refused")
(* no command refuses a document, and views of the container refuse least *)
OleLeast == \A i \in 1 .. Len(session) : (session[i].command.view = "ole" /\ session[i].outcome = "refused") => ~Recognised(session[i].file)
Damaged == \A i \in 1 .. Len(session) : session[i].outcome = "failed" => session[i].file.damage # ""
Emit == Len(session) = MaxRuns => PrintT("@@" \o ToJson([session |-> session, recognised |-> [i \in 1 .. Len(session) |-> Recognised(session[i].file)]]))
=============================================================================
