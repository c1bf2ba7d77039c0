------------------------- MODULE RecordStreamTrace -------------------------
(* Recorded runs of the real reader, checked action by action against        *)
(* RecordStream.  DATA: a sequence of runs                                   *)
(*   [id, total, evs: <<[b: first bytes at the offset the run claims, off,   *)
(*     tag, level, lo, hi (declared size limbs), n (payload length), same    *)
(*     (payload = bytes of the stream there), seq]>>, tail: first bytes after *)
(*     the last record, end: "end" | "error"]                                *)
(* One TLC state per event; verdicts are total: a rejected run prints the    *)
(* failing clause and the next run goes on.                                  *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.DATA)

RS == INSTANCE RecordStream WITH
        ShortMax <- 4095, Recs <- {}, MaxLen <- 0, CutMode <- "none", EmitSel <- FALSE,
        written <- <<>>, phase <- "", cut <- 0, pos <- 0, hdr <- 0, delivered <- <<>>, status <- ""

VARIABLES run, line, pos, bad
vars == <<run, line, pos, bad>>

Init == run = 1 /\ line = 1 /\ pos = 0 /\ bad = ""

Word(b, i) == <<b[i] + 256 * b[i + 1], b[i + 2] + 256 * b[i + 3]>>

(* the clauses of reading one record at pos; "" = all hold *)
EventFault(e, p, total, n) ==
  LET w == Word(e.b, 1)
      ext == RS!WordSize(w) = 4095
      sz == IF ext THEN RS!WordValue(Word(e.b, 5)) ELSE RS!WordSize(w)
      hl == IF ext THEN 8 ELSE 4
  IN IF e.off # p THEN "offset"
     ELSE IF e.seq # n THEN "numbering"
     ELSE IF e.tag # RS!WordTag(w) THEN "tag"
     ELSE IF e.level # RS!WordLevel(w) THEN "level"
     ELSE IF e.size # sz THEN "declared-size"
     ELSE IF e.n # sz THEN "partial-payload"
     ELSE IF p + hl + sz > total THEN "beyond-end"
     ELSE IF ~e.same THEN "payload-bytes"
     ELSE IF ~e.again THEN "reserialised-bytes"
     ELSE ""

EventLen(e) == LET w == Word(e.b, 1) IN
  IF RS!WordSize(w) = 4095 THEN 8 + RS!WordValue(Word(e.b, 5)) ELSE 4 + RS!WordSize(w)

(* how the run must end with `rest` bytes left, whose first are t *)
EndFault(r, p) ==
  LET rest == r.total - p
      t == r.tail
      complete == /\ rest >= 4
                  /\ LET w == Word(t, 1) IN
                     IF RS!WordSize(w) # 4095 THEN 4 + RS!WordSize(w) <= rest
                     ELSE rest >= 8 /\ (Word(t, 5)[2] < 16384) /\ 8 + RS!WordValue(Word(t, 5)) <= rest
  IN IF rest = 0 THEN (IF r.end = "end" THEN "" ELSE "error-at-clean-end")
     ELSE IF complete THEN "record-not-delivered"
     ELSE IF r.end # "error" THEN "cut-not-reported"
     ELSE ""

Step ==
  /\ run <= Len(Runs) /\ bad = "" /\ line <= Len(Runs[run].evs)
  /\ LET e == Runs[run].evs[line]
         f == EventFault(e, pos, Runs[run].total, line - 1)
     IN /\ bad' = f
        /\ pos' = IF f = "" THEN pos + EventLen(e) ELSE pos
        /\ line' = IF f = "" THEN line + 1 ELSE line
        /\ UNCHANGED run
        /\ (f # "" => PrintT("@@" \o ToJson([id |-> Runs[run].id, line |-> line, clause |-> f])))

EndRun ==
  /\ run <= Len(Runs) /\ bad = "" /\ line > Len(Runs[run].evs)
  /\ LET f == EndFault(Runs[run], pos) IN
       /\ (f # "" => PrintT("@@" \o ToJson([id |-> Runs[run].id, line |-> line, clause |-> f])))
       /\ run' = run + 1 /\ line' = 1 /\ pos' = 0 /\ bad' = ""

Skip == /\ run <= Len(Runs) /\ bad # ""
        /\ run' = run + 1 /\ line' = 1 /\ pos' = 0 /\ bad' = ""

Next == Step \/ EndRun \/ Skip
=============================================================================
