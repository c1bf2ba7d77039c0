----------------------------- MODULE DocListing -----------------------------
(* The listing of a document with and without derived views, and the order   *)
(* of its sections.                                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Optional,    \* root entries that may be missing
          Indexes      \* section numbers that may be present
VARIABLES doc          \* [root: set of root names, secs: set of section numbers, vsecs, odd: BOOLEAN]

Root(d) == {"FileHeader", "DocInfo", "BodyText"} \cup d.root
Init == doc \in [root : SUBSET Optional, secs : SUBSET Indexes, vsecs : SUBSET {0, 2}, odd : BOOLEAN]
Next == FALSE /\ UNCHANGED doc

Derived(n) == CASE n = "FileHeader" -> {".txt"}
                [] n = "SummaryInformation" -> {".txt"}
                [] n = "PrvText" -> {".utf8"}
                [] n = "DocInfo" -> {".records", ".models", ".xml"}
                [] n = "BodyText" -> {".xml"}
                [] n = "ViewText" -> {".xml"}
                [] OTHER -> {}
SectionDerived == {".records", ".models", ".xml"}
SecName(i) == "Section" \o ToString(i)
(* storages of the document and what they hold *)
Secs(d, stg) == IF stg = "BodyText" THEN d.secs ELSE d.vsecs
Inner(d, stg) ==
  CASE stg \in {"BodyText", "ViewText"} -> { SecName(i) : i \in Secs(d, stg) } \cup (IF d.odd THEN {"SectionX", "Section01"} ELSE {})
    [] stg = "BinData" -> {"BIN0001.jpg", "BIN0002.png"}
    [] stg = "DocOptions" -> {"_LinkDoc"}
    [] stg = "Scripts" -> {"DefaultJScript"}
    [] OTHER -> {}
IsStorage(n) == n \in {"BodyText", "ViewText", "BinData", "DocOptions", "Scripts"}
ListRoot(d, v) == UNION { {n} \cup (IF v THEN { n \o x : x \in Derived(n) } ELSE {}) : n \in Root(d) }
ListInner(d, s, v) ==
  UNION { {n} \cup (IF v /\ s \in {"BodyText", "ViewText"} THEN { n \o x : x \in SectionDerived } ELSE {}) : n \in Inner(d, s) }
(* leaves as <<storage or "", name>> *)
LeavesOf(d, v) ==
  { <<"", n>> : n \in { m \in ListRoot(d, v) : ~IsStorage(m) } }
  \cup UNION { { <<s, n>> : n \in ListInner(d, s, v) } : s \in { m \in Root(d) : IsStorage(m) } }
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Order == Sorted(doc.secs)

Increasing == \A i \in 1 .. Len(Order) - 1 : Order[i] < Order[i + 1]
Extends == LeavesOf(doc, FALSE) \subseteq LeavesOf(doc, TRUE)
Emit == PrintT("@@" \o ToJson([root |-> Root(doc), storages |-> { <<s, Inner(doc, s)>> : s \in { m \in Root(doc) : IsStorage(m) } },
          base |-> LeavesOf(doc, FALSE), ext |-> LeavesOf(doc, TRUE), order |-> Order]))
=============================================================================
