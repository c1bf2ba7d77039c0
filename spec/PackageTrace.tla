---------------------------- MODULE PackageTrace -----------------------------
(* Outcomes of conversions of documents with binary items.                    *)
EXTENDS PackageOps, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)
VARIABLE run
Init == run \in 1 .. Len(Data)
Next == UNCHANGED run
R == Data[run]
Bad == Verdict(R.doc, R.mode, R.out, R.loose)
Emit == Bad # "" => PrintT("@@" \o ToJson([id |-> R.id, bad |-> Bad, refs |-> References(R.doc, R.mode), fillrefs |-> Fillings(R.doc, R.mode)]))
=============================================================================
