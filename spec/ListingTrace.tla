---------------------------- MODULE ListingTrace ----------------------------
(* Recorded listings and searches against ListingOps.                          *)
(* run: [id, docs: <<<<stream>>>>, qs: <<[k, f, s, a, model, tag, incomplete,    *)
(* is, failed]>>]; a stream's records are [lv, k, fill], or named already        *)
(* [lv, name, tag, fill].  "find" is of all documents, the rest of stream s of f. *)
EXTENDS ListingOps, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run, line, ds
Kinded(s) == Len(s) > 0 /\ "k" \in DOMAIN s[1]
Names(docs) == [f \in 1 .. Len(docs) |-> [s \in 1 .. Len(docs[f]) |-> IF Kinded(docs[f][s]) THEN Named(docs[f][s]) ELSE docs[f][s]]]
Start(k) == IF k <= Len(Runs) THEN Names(Runs[k].docs) ELSE <<>>
Init == run = 1 /\ line = 1 /\ ds = Start(1)
Answer(q) ==
  CASE q.k = "find" -> Found(ds, q)
    [] q.k = "names" -> [is |-> LET n == ds[q.f][q.s] l == Listed(n, 1, Len(n)) IN [x \in 1 .. Len(l.is) |-> n[x].name], failed |-> LET n == ds[q.f][q.s] IN Listed(n, 1, Len(n)).failed]
    [] q.k = "events" -> [is |-> Events(ds[q.f][q.s]), failed |-> Listed(ds[q.f][q.s], 1, Len(ds[q.f][q.s])).failed]
    [] OTHER -> Selected(ds[q.f][q.s], q)
Ask == /\ run <= Len(Runs) /\ line <= Len(Runs[run].qs)
       /\ LET q == Runs[run].qs[line] w == Answer(q) IN
          IF w.is = q.is /\ w.failed = q.failed THEN TRUE
          ELSE PrintT("@@" \o ToJson([id |-> Runs[run].id, line |-> line, k |-> q.k, how |-> q.how, want |-> w]))
       /\ line' = line + 1 /\ UNCHANGED <<run, ds>>
NextRun == /\ run <= Len(Runs) /\ line > Len(Runs[run].qs)
           /\ run' = run + 1 /\ line' = 1 /\ ds' = Start(run + 1)
Next == Ask \/ NextRun
=============================================================================
