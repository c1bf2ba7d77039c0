------------------------------ MODULE IdsTrace -------------------------------
(* Ids read from the XML of documents: data is a sequence of runs; a run has   *)
(* els, the kinds of its records in order, and ids, pairs of kind and id.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLES run, i, next, bad
vars == <<run, i, next, bad>>
Kind == {"P", "T", "G", "S"}
Init == run \in 1 .. Len(Data) /\ i = 0 /\ next = [k \in Kind |-> 0] /\ bad = ""
R == Data[run]
Step == /\ bad = "" /\ i < Len(R.ids)
        /\ LET e == R.ids[i + 1] IN
           /\ bad' = IF e[2] # next[e[1]] THEN "number" ELSE IF i + 1 > Len(R.els) \/ R.els[i + 1] # e[1] THEN "order" ELSE ""
           /\ next' = [next EXCEPT ![e[1]] = @ + 1]
        /\ i' = i + 1 /\ UNCHANGED run
End == /\ bad = "" /\ i = Len(R.ids) /\ Len(R.els) # Len(R.ids) /\ bad' = "missing" /\ UNCHANGED <<run, i, next>>
Next == Step \/ End
Emit == bad # "" => PrintT("@@" \o ToJson([id |-> R.id, bad |-> bad, at |-> i]))
=============================================================================
