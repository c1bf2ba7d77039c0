------------------------- MODULE ChunkedReaderTrace -------------------------
(* Recorded reads of real readers against the contract of ChunkedReader.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLE i
C == INSTANCE ChunkedReader WITH PieceSizes <- {}, MaxPieces <- 0, Sizes <- {}, MaxReads <- 0,
        pieces <- <<>>, taken <- 0, buffer <- 0, delivered <- 0, reads <- <<>>, phase <- "idle"
(* r: [id, total, loose, reads: <<[n, got, same]>>]; loose: sizes are approximate *)
Bad(r) ==
  { k \in 1 .. Len(r.reads) :
      \/ ~r.reads[k].same
      \/ IF r.loose THEN LET left == r.total - C!GotBefore(r.reads, k) IN
                         r.reads[k].got > left \/ (r.reads[k].n = -1 /\ r.reads[k].got # left)
                         \/ (r.reads[k].n > 0 /\ left > 0 /\ r.reads[k].got = 0)
         ELSE ~C!ReadOk(r.reads, k, r.total) }
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1
Emit == i > 0 /\ Bad(Runs[i]) # {} => PrintT("@@" \o ToJson([id |-> Runs[i].id, bad |-> Bad(Runs[i])]))
=============================================================================
