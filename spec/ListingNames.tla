---------------------------- MODULE ListingNames ----------------------------
(* What the records of given documents are, for the documents' builder.        *)
EXTENDS ListingOps, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLES run
Init == run = 1
Next == run < Len(Runs) /\ run' = run + 1
Of(d) == LET n == Named(d) IN [named |-> n, tagnames |-> [i \in 1 .. Len(n) |-> TagName(n[i].tag)],
          sizes |-> [v \in 1 .. 3 |-> [i \in 1 .. Len(n) |-> SizeOf(n[i].name, n[i].fill, v = 3, v > 1)]]]
Emit == PrintT("@@" \o ToJson([run |-> run, docs |-> [f \in 1 .. Len(Runs[run]) |-> [s \in 1 .. Len(Runs[run][f]) |-> Of(Runs[run][f][s])]]]))
=============================================================================
