-------------------------- MODULE RecordQueryTrace --------------------------
(* Histories of selections made on one open record stream: every answer must *)
(* be the selection RecordStream defines, whatever was asked before.         *)
(* DATA: runs [id, levels: <<..>>, qs: <<[k: "range"|"tree"|"nth"|"trees",    *)
(*        a, b, res: <<seqno, ..>> (or a sequence of those for "trees"),      *)
(*        same: BOOLEAN (tags, levels, payloads are those of the stream)]>>]   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.DATA)
RS == INSTANCE RecordStream WITH
        ShortMax <- 4095, Recs <- {}, MaxLen <- 0, CutMode <- "none", EmitSel <- FALSE,
        written <- <<>>, phase <- "", cut <- 0, pos <- 0, hdr <- 0, delivered <- <<>>, status <- ""

VARIABLES run, line, trees
Levels(r) == [i \in 1 .. Len(r.levels) |-> [level |-> r.levels[i]]]
Start(k) == IF k <= Len(Runs) THEN RS!TreesOf(Levels(Runs[k])) ELSE <<>>
Init == run = 1 /\ line = 1 /\ trees = Start(1)

Answer(q, n, ts) ==
  CASE q.k = "range" -> RS!RangeSel(n, q.a, q.b)
    [] q.k = "nth"   -> RS!NthSel(n, q.a)
    [] q.k = "tree"  -> IF q.a < Len(ts) THEN ts[q.a + 1] ELSE <<>>
    [] q.k = "trees" -> ts
    [] q.k = "all"   -> RS!RangeSel(n, 0, n)

Query ==
  /\ run <= Len(Runs) /\ line <= Len(Runs[run].qs)
  /\ LET q == Runs[run].qs[line]
         w == Answer(q, Len(Runs[run].levels), trees)
     IN IF q.res = w /\ q.same THEN TRUE
        ELSE PrintT("@@" \o ToJson([id |-> Runs[run].id, line |-> line,
                 clause |-> IF q.res # w THEN "selection-" \o q.k ELSE "content-" \o q.k, want |-> w]))
  /\ line' = line + 1 /\ UNCHANGED <<run, trees>>
NextRun == /\ run <= Len(Runs) /\ line > Len(Runs[run].qs)
           /\ run' = run + 1 /\ line' = 1 /\ trees' = Start(run + 1)
Next == Query \/ NextRun
=============================================================================
