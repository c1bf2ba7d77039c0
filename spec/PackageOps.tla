----------------------------- MODULE PackageOps -----------------------------
(* What a conversion of a document with binary items has to give.             *)
(*                                                                            *)
(* A document is [decls, streams, pics, fills]: the items it declares (kind   *)
(* and the name of their stream), the streams there are (path and data), and  *)
(* the items its pictures and fillings refer to, counted from 1.              *)
(* An outcome is [entries, listed, refs, fillrefs, texts, ok]: the parts of   *)
(* the package with their data, what its manifest lists, what the content and *)
(* the style sheet refer to, the data put into the markup, and whether the    *)
(* markup is well-formed.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IsOdt(m) == m \in {"odt", "odt with images"}
IsPackage(m) == IsOdt(m) \/ m = "html"
Inline(m) == m \in {"odt with images", "fodt", "content with images"}
Refers(m) == m \in {"odt", "html", "content", "fodt referring"}
Parts(m) == IF IsOdt(m) THEN <<"styles.xml", "content.xml", "manifest.rdf">>
            ELSE IF m = "html" THEN <<"index.xhtml", "styles.css">> ELSE <<>>
Unlisted == <<"META-INF/manifest.xml", "mimetype">>
Place(p) == "bindata/" \o p

IsEmbedded(d, r) == r \in 1 .. Len(d.decls) /\ d.decls[r][1] = "embedding"
Shown(d, rs) == SelectSeq(rs, LAMBDA r : IsEmbedded(d, r))
DataAt(d, name) == LET i == CHOOSE i \in 1 .. Len(d.streams) : d.streams[i][1] = name IN d.streams[i][2]

References(d, m) == IF Refers(m) THEN LET s == Shown(d, d.pics) IN [i \in 1 .. Len(s) |-> Place(d.decls[s[i]][2])] ELSE <<>>
Fillings(d, m) == IF m = "html" THEN LET s == Shown(d, d.fills) IN [i \in 1 .. Len(s) |-> Place(d.decls[s[i]][2])] ELSE <<>>
Texts(d, m) == IF Inline(m) THEN LET s == Shown(d, d.pics) IN [i \in 1 .. Len(s) |-> DataAt(d, d.decls[s[i]][2])]
               ELSE IF m = "xml" THEN [i \in 1 .. Len(d.decls) |-> IF IsEmbedded(d, i) THEN DataAt(d, d.decls[i][2]) ELSE ""]
               ELSE IF m = "xml referring" THEN [i \in 1 .. Len(d.decls) |-> ""]
               ELSE <<>>

Times(x, s) == Cardinality({ i \in 1 .. Len(s) : s[i] = x })
Names(entries) == [i \in 1 .. Len(entries) |-> entries[i][1]]

(* every item, once, with its data *)
Complete(d, m, o) == IsPackage(m) => \A i \in 1 .. Len(d.streams) : /\ Times(Place(d.streams[i][1]), Names(o.entries)) = 1
                                                                    /\ Times(<<Place(d.streams[i][1]), d.streams[i][2]>>, o.entries) = 1
(* and nothing that does not belong there *)
Expected(d, m) == { Parts(m)[i] : i \in 1 .. Len(Parts(m)) } \cup { Place(d.streams[i][1]) : i \in 1 .. Len(d.streams) }
                  \cup IF IsOdt(m) THEN { Unlisted[i] : i \in 1 .. Len(Unlisted) } ELSE {}
Nothing(d, m, o) == IsPackage(m) => /\ { Names(o.entries)[i] : i \in 1 .. Len(o.entries) } = Expected(d, m)
                                    /\ Cardinality(Expected(d, m)) = Len(o.entries)
(* the manifest and the package agree *)
Listed(m, o) == IsOdt(m) => LET n == Names(o.entries) IN
                /\ \A i \in 1 .. Len(o.listed) : Times(o.listed[i], o.listed) = 1 /\ Times(o.listed[i], n) = 1
                /\ \A i \in 1 .. Len(n) : Times(n[i], Unlisted) = 0 => Times(n[i], o.listed) = 1
(* references lead somewhere *)
Resolved(m, o) == IsPackage(m) => \A r \in { o.refs[i] : i \in 1 .. Len(o.refs) } \cup { o.fillrefs[i] : i \in 1 .. Len(o.fillrefs) } :
                                     Times(r, Names(o.entries)) = 1
Verdict(d, m, o, loose) == IF ~o.ok THEN "markup"
                           ELSE IF ~Complete(d, m, o) THEN "items"
                           ELSE IF ~Nothing(d, m, o) THEN "entries"
                           ELSE IF ~Listed(m, o) THEN "manifest"
                           ELSE IF ~Resolved(m, o) THEN "dangling reference"
                           ELSE IF loose THEN IF m = "xml" /\ o.texts # Texts(d, m) THEN "embedded data" ELSE ""
                           ELSE IF o.refs # References(d, m) THEN "references"
                           ELSE IF o.fillrefs # Fillings(d, m) THEN "fillings"
                           ELSE IF o.texts # Texts(d, m) THEN "embedded data" ELSE ""
=============================================================================
