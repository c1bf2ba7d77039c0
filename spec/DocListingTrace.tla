--------------------------- MODULE DocListingTrace ---------------------------
(* Checks the listings recorded from real documents against DocListing.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLE i
L == INSTANCE DocListing WITH Optional <- {}, Indexes <- {}, doc <- [root |-> {}, secs |-> {}, vsecs |-> {}, odd |-> FALSE]
SetOf(s) == { s[k] : k \in 1 .. Len(s) }
Texts == {"BodyText", "ViewText"}
(* the stored tree: streams of the root, storages with their streams *)
StoredRoot(r) == SetOf(r.streams) \cup { s[1] : s \in SetOf(r.storages) }
WantBase(r) == { <<"", n>> : n \in SetOf(r.streams) } \cup UNION { { <<s[1], n>> : n \in SetOf(s[2]) } : s \in SetOf(r.storages) }
WantExt(r) ==
  WantBase(r)
  \cup UNION { { <<"", n \o x>> : x \in L!Derived(n) } : n \in StoredRoot(r) }
  \cup UNION { UNION { { <<s[1], n \o x>> : x \in L!SectionDerived } : n \in SetOf(s[2]) } : s \in { t \in SetOf(r.storages) : t[1] \in Texts } }
(* candidates: <<name, number>>; a section is a stream named Section<number> *)
Numbers(r) == { c[2] : c \in { d \in SetOf(r.candidates) : d[1] = L!SecName(d[2]) } }
Good(r) == /\ SetOf(r.base) = WantBase(r) /\ Len(r.base) = Cardinality(WantBase(r))
           /\ SetOf(r.ext) = WantExt(r) /\ Len(r.ext) = Cardinality(WantExt(r))
           /\ SetOf(r.order) = Numbers(r)
           /\ \A k \in 1 .. Len(r.order) - 1 : r.order[k] < r.order[k + 1]
Init == i = 0
Next == i < Len(Runs) /\ i' = i + 1
Emit == i > 0 /\ ~Good(Runs[i]) => PrintT("@@" \o ToJson([id |-> Runs[i].id,
   missing |-> WantExt(Runs[i]) \ SetOf(Runs[i].ext), extra |-> SetOf(Runs[i].ext) \ WantExt(Runs[i])]))
=============================================================================
