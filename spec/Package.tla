------------------------------ MODULE Package --------------------------------
(* Conversion of documents with binary items, part by part, with one          *)
(* converter used again and again.                                            *)
EXTENDS PackageOps, Json

CONSTANTS Kinds, MaxDecls, MaxPics, MaxFills, Extras, Modes, MaxRuns

Sequences(S, n) == UNION { [1 .. i -> S] : i \in 0 .. n }
(* streams are not numbered in the order of their declarations *)
Number(ks, i) == ToString(Len(ks) + 1 - i)
Stream(ks, i) == "BIN000" \o Number(ks, i) \o (IF ks[i] = "embedding" THEN ".png" ELSE IF ks[i] = "storage" THEN ".OLE" ELSE "")
Streams(ks, extra) == { Stream(ks, i) : i \in { i \in 1 .. Len(ks) : ks[i] # "link" } } \cup extra
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<<<x, "data of " \o x>>>> \o Seq1(S \ {x})
Docs == { [decls |-> [i \in 1 .. Len(ks) |-> <<ks[i], Stream(ks, i)>>], streams |-> Seq1(Streams(ks, extra)), pics |-> ps, fills |-> fs] :
            ks \in Sequences(Kinds, MaxDecls), extra \in SUBSET Extras, ps \in Sequences(0 .. MaxDecls + 1, MaxPics), fs \in Sequences(1 .. MaxDecls, MaxFills) }

VARIABLES doc, mode, parts, items, out, runs
vars == <<doc, mode, parts, items, out, runs>>
Nothing0 == [entries |-> <<>>, listed |-> <<>>, refs |-> <<>>, fillrefs |-> <<>>, texts |-> <<>>, ok |-> TRUE]
Init == /\ doc \in Docs /\ mode = "" /\ parts = <<>> /\ items = {} /\ out = Nothing0 /\ runs = <<>>
Begin(m) == /\ mode = "" /\ Len(runs) < MaxRuns
            /\ mode' = m /\ parts' = Parts(m) /\ items' = IF IsPackage(m) THEN 1 .. Len(doc.streams) ELSE {}
            /\ out' = Nothing0 /\ UNCHANGED <<doc, runs>>
Put(o, p, d, m) == [o EXCEPT !.entries = Append(@, <<p, d>>), !.listed = IF IsOdt(m) THEN Append(@, p) ELSE @]
(* a converted part carries the references and the embedded data *)
Part == /\ mode # "" /\ parts # <<>>
        /\ LET p == parts[1]
               o == Put(out, p, "markup", mode) IN
           out' = CASE p = "content.xml" -> [o EXCEPT !.refs = References(doc, mode), !.texts = Texts(doc, mode)]
                    [] p = "index.xhtml" -> [o EXCEPT !.refs = References(doc, mode)]
                    [] p = "styles.css" -> [o EXCEPT !.fillrefs = Fillings(doc, mode)]
                    [] OTHER -> o
        /\ parts' = Tail(parts) /\ UNCHANGED <<doc, mode, items, runs>>
(* the order of the items is free *)
Item == /\ mode # "" /\ parts = <<>>
        /\ \E i \in items : /\ items' = items \ {i}
                            /\ out' = Put(out, Place(doc.streams[i][1]), doc.streams[i][2], mode)
        /\ UNCHANGED <<doc, mode, parts, runs>>
Finished == IF IsOdt(mode) THEN [out EXCEPT !.entries = @ \o [i \in 1 .. 2 |-> <<Unlisted[i], "markup">>]]
            ELSE IF IsPackage(mode) THEN out
            ELSE [out EXCEPT !.texts = Texts(doc, mode), !.refs = References(doc, mode)]
Close == /\ mode # "" /\ parts = <<>> /\ items = {}
         /\ runs' = Append(runs, [mode |-> mode, out |-> Finished])
         /\ mode' = "" /\ out' = Nothing0 /\ UNCHANGED <<doc, parts, items>>
Next == (\E m \in Modes : Begin(m)) \/ Part \/ Item \/ Close

--------------------------------------------------------------------------------
Good == \A i \in 1 .. Len(runs) : Verdict(doc, runs[i].mode, runs[i].out, FALSE) = ""
(* nothing is in a package twice, at any time, and nothing is listed before it is there *)
Growing == /\ \A i \in 1 .. Len(out.entries) : Times(out.entries[i][1], Names(out.entries)) = 1
           /\ IsOdt(mode) => out.listed = Names(out.entries)
(* converting again gives the same *)
Same == \A i, j \in 1 .. Len(runs) : runs[i].mode = runs[j].mode => /\ runs[i].out.refs = runs[j].out.refs /\ runs[i].out.texts = runs[j].out.texts
                                                                    /\ { runs[i].out.entries[k] : k \in 1 .. Len(runs[i].out.entries) } = { runs[j].out.entries[k] : k \in 1 .. Len(runs[j].out.entries) }
(* an image put into the markup is also an item of the package *)
Twice == \A i \in 1 .. Len(runs) : runs[i].mode = "odt with images" => \A t \in { runs[i].out.texts[k] : k \in 1 .. Len(runs[i].out.texts) } :
            \E k \in 1 .. Len(runs[i].out.entries) : runs[i].out.entries[k][2] = t
View == <<doc, mode, parts, items, { out.entries[k] : k \in 1 .. Len(out.entries) }, [i \in 1 .. Len(runs) |-> runs[i].mode]>>
Emit == (Len(runs) = MaxRuns) =>
          PrintT("@@" \o ToJson([doc |-> doc, modes |-> [i \in 1 .. MaxRuns |-> runs[i].mode], refs |-> [i \in 1 .. MaxRuns |-> runs[i].out.refs]]))
=============================================================================
