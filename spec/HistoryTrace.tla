----------------------------- MODULE HistoryTrace -----------------------------
(* What processes read in long histories against History: every piece of every  *)
(* part is the one that a process reads which reads nothing else.               *)
(* run: [id, due: <<doc -> part -> <<digest>>>>,                                *)
(*       ops: <<[op, h, d, p, r, res, end]>>: handle h on document d, reader r  *)
(*       of part p; res what it gave, end whether it said that there is no more;*)
(*       late: <<[r, from, res]>> the same values, looked at in the end;        *)
(*       files: whether the files are as they were]                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run, k, pos, over, bad
R == Runs[run]
O == R.ops[k + 1]
Init == run \in 1 .. Len(Runs) /\ k = 0 /\ pos = <<>> /\ over = {} /\ bad = ""
Due == R.due[O.d][O.p]
At == IF O.r \in DOMAIN pos THEN pos[O.r] ELSE 0
Fit(due, from, res) == from + Len(res) <= Len(due) /\ \A n \in 1 .. Len(res) : res[n] = due[from + n]
Judge ==
  CASE O.op = "open" -> IF O.r \in DOMAIN pos THEN "recorder" ELSE ""
    [] O.op = "close" -> ""
    [] O.r \notin DOMAIN pos -> "recorder"
    [] O.r \in over /\ O.res # <<>> -> "goes on after its end"
    [] ~Fit(Due, At, O.res) -> "another value"
    [] O.end /\ At + Len(O.res) < Len(Due) -> "ends early"
    [] OTHER -> ""
Next ==
  \/ /\ bad = "" /\ k < Len(R.ops) /\ UNCHANGED run
     /\ k' = k + 1
     /\ bad' = Judge
     /\ pos' = CASE O.op = "open" -> pos @@ (O.r :> 0)
                 [] O.op \in {"close", "drop"} -> pos
                 [] OTHER -> [pos EXCEPT ![O.r] = @ + Len(O.res)]
     /\ over' = IF O.end THEN over \cup {O.r} ELSE over
  \/ /\ bad = "" /\ k = Len(R.ops) /\ k' = k + 1 /\ UNCHANGED <<run, pos, over>>
     /\ bad' = IF ~R.files THEN "a file was changed"
               ELSE IF \E n \in 1 .. Len(R.late) : LET l == R.late[n] IN l.was # l.res THEN "a value handed out changed" ELSE ""
Which == IF k <= Len(R.ops) THEN <<R.ops[k].d, R.ops[k].p>> ELSE LET l == { n \in 1 .. Len(R.late) : R.late[n].was # R.late[n].res } IN IF l = {} THEN <<"", "">> ELSE <<"", R.late[CHOOSE n \in l : TRUE].p>>
Emit == bad # "" => PrintT("@@" \o ToJson([id |-> R.id, at |-> k, bad |-> bad, which |-> Which]))
=============================================================================
