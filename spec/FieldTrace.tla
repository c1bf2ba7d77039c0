----------------------------- MODULE FieldTrace -----------------------------
(* Recorded parse events of real records against FieldLayout: leaves lie      *)
(* contiguously from the start of the payload, the leftover begins where the  *)
(* last one ends and reaches to the end, arrays have the number of items that *)
(* was declared, and no field newer than the document is read.               *)
(* run: [id, size, doc, leaves: <<[off, size, ver]>>, arrays: <<[decl, got]>>, *)
(*       left: [off, len], same]                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLE i
VerLe(a, b) == \A k \in 1 .. Len(a) : (\A j \in 1 .. k - 1 : a[j] = b[j]) => a[k] <= b[k]
End(r) == IF r.leaves = <<>> THEN 0 ELSE r.leaves[Len(r.leaves)].off + r.leaves[Len(r.leaves)].size
Bad(r) ==
  (IF \A k \in 1 .. Len(r.leaves) :
        r.leaves[k].off = (IF k = 1 THEN 0 ELSE r.leaves[k - 1].off + r.leaves[k - 1].size) THEN {} ELSE {"contiguous"})
  \cup (IF \A k \in 1 .. Len(r.arrays) : r.arrays[k].decl = r.arrays[k].got THEN {} ELSE {"count"})
  \cup (IF \A k \in 1 .. Len(r.leaves) : r.leaves[k].ver = <<>> \/ VerLe(r.leaves[k].ver, r.doc) THEN {} ELSE {"version"})
  \cup (IF r.left.off = End(r) /\ r.left.off + r.left.len = r.size THEN {} ELSE {"leftover"})
  \cup (IF r.same THEN {} ELSE {"views"})
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1
Emit == i > 0 /\ Bad(Runs[i]) # {} => PrintT("@@" \o ToJson([id |-> Runs[i].id, bad |-> Bad(Runs[i])]))
=============================================================================
