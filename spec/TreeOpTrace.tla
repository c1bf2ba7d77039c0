---------------------------- MODULE TreeOpTrace ----------------------------
(* Recorded event streams of the real code against TreeOp.                   *)
(* DATA: runs [id, lv: levels relative to the first, ev: <<[t, i]>>,          *)
(*             anc: ancestors reported with each start (or <<>>), end]        *)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run, line, stack, next, bad
Init == run = 1 /\ line = 1 /\ stack = <<>> /\ next = 1 /\ bad = FALSE

R == Runs[run]
(* what TreeOp's Feed/Finish allow as the next event: first the ends that the *)
(* next item's level requires, then its start; after the last item all ends   *)
Expected ==
  IF next <= Len(R.lv)
  THEN IF Len(stack) > R.lv[next] THEN <<"e", stack[Len(stack)]>>
       ELSE IF Len(stack) = R.lv[next] THEN <<"s", next>> ELSE <<"refuse", next>>
  ELSE IF stack # <<>> THEN <<"e", stack[Len(stack)]>> ELSE <<"end", 0>>
(* A Refuse is decided on the previous depth: ends never precede it *)
Reject(c) == PrintT("@@" \o ToJson([id |-> R.id, line |-> line, clause |-> c, want |-> Expected]))

Event ==
  /\ run <= Len(Runs) /\ ~bad /\ line <= Len(R.ev)
  /\ LET e == R.ev[line] x == Expected
         c == IF e.t # x[1] THEN (IF x[1] = "refuse" THEN "not-refused" ELSE IF x[1] = "end" THEN "after-end"
                                  ELSE IF x[1] = "e" THEN "item-not-closed" ELSE "item-closed-early")
              ELSE IF e.i # x[2] THEN "order"
              ELSE IF e.t = "s" /\ R.anc # <<>> /\ R.anc[e.i] # stack THEN "ancestors"
              ELSE ""
     IN IF c = "" THEN /\ line' = line + 1 /\ UNCHANGED <<run, bad>>
                       /\ stack' = IF e.t = "s" THEN Append(stack, e.i) ELSE SubSeq(stack, 1, Len(stack) - 1)
                       /\ next' = IF e.t = "s" THEN next + 1 ELSE next
        ELSE Reject(c) /\ bad' = TRUE /\ UNCHANGED <<run, line, stack, next>>
End ==
  /\ run <= Len(Runs) /\ (bad \/ line > Len(R.ev))
  /\ LET x == Expected
         c == IF bad THEN ""
              ELSE IF x[1] = "refuse" THEN (IF R.end = "error" THEN "" ELSE "not-refused")
              ELSE IF x[1] = "end" THEN (IF R.end = "end" THEN "" ELSE "error-at-end")
              ELSE "ends-early"
     IN c # "" => Reject(c)
  /\ run' = run + 1 /\ line' = 1 /\ stack' = <<>> /\ next' = 1 /\ bad' = FALSE
Next == Event \/ End
=============================================================================
