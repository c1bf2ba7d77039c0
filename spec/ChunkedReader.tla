---------------------------- MODULE ChunkedReader ----------------------------
(* A reader over a source that delivers its content in pieces.               *)
(* Content is the positions 1..Total; a reading history is a sequence of     *)
(* sized (n >= 0) and whole (n = -1) reads.  What a read returns is left open*)
(* within the contract: at most n, never more than is left, and nothing only *)
(* when nothing was asked for or nothing is left.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS PieceSizes, MaxPieces, Sizes, MaxReads
StdSizes == {-1, 0, 1, 2, 4}
VARIABLES pieces,      \* how the source splits the content
          taken,       \* pieces drawn from the source
          buffer,      \* drawn but not delivered
          delivered, reads, phase
vars == <<pieces, taken, buffer, delivered, reads, phase>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total == Sum(pieces)
Left == Total - delivered

Init == pieces = <<>> /\ taken = 0 /\ buffer = 0 /\ delivered = 0 /\ reads = <<>> /\ phase = "source"
AddPiece(k) == /\ phase = "source" /\ Len(pieces) < MaxPieces
               /\ pieces' = Append(pieces, k) /\ UNCHANGED <<taken, buffer, delivered, reads, phase>>
Start == phase = "source" /\ phase' = "idle" /\ UNCHANGED <<pieces, taken, buffer, delivered, reads>>
(* a read first draws pieces as long as the buffer does not satisfy it *)
Ask(n) == /\ phase = "idle" /\ Len(reads) < MaxReads
          /\ reads' = Append(reads, [n |-> n, got |-> 0]) /\ phase' = "busy"
          /\ UNCHANGED <<pieces, taken, buffer, delivered>>
Want == reads[Len(reads)].n
Short == Want = -1 \/ buffer < Want
Draw == /\ phase = "busy" /\ Short /\ taken < Len(pieces)
        /\ buffer' = buffer + pieces[taken + 1] /\ taken' = taken + 1
        /\ UNCHANGED <<pieces, delivered, reads, phase>>
Deliver == /\ phase = "busy" /\ (~Short \/ taken = Len(pieces))
           /\ LET k == IF Want = -1 \/ Want > buffer THEN buffer ELSE Want IN
                /\ buffer' = buffer - k /\ delivered' = delivered + k
                /\ reads' = [reads EXCEPT ![Len(reads)].got = k]
           /\ phase' = "idle" /\ UNCHANGED <<pieces, taken>>
Next == \/ \E k \in PieceSizes : AddPiece(k)
        \/ Start \/ (\E n \in Sizes : Ask(n)) \/ Draw \/ Deliver

--------------------------------------------------------------------------------
(* the contract, on recorded reads: got against asked and what was left *)
RECURSIVE GotBefore(_, _)
GotBefore(rs, i) == IF i = 1 THEN 0 ELSE GotBefore(rs, i - 1) + rs[i - 1].got
ReadOk(rs, i, total) ==
  LET left == total - GotBefore(rs, i)
      r == rs[i]
  IN /\ r.got <= left
     /\ r.n = -1 => r.got = left
     /\ r.n >= 0 => r.got <= r.n
     /\ (r.n > 0 /\ left > 0) => r.got > 0
Complete == phase = "idle" => \A i \in 1 .. Len(reads) : ReadOk(reads, i, Total)
Conserved == delivered + buffer = Sum(SubSeq(pieces, 1, taken))
Bounded == phase = "idle" => delivered <= Total
Emit == phase = "idle" /\ Len(reads) = MaxReads =>
   PrintT("@@" \o ToJson([pieces |-> pieces, reads |-> [i \in 1 .. Len(reads) |-> reads[i].n]]))
=============================================================================
