--------------------------- MODULE RecognitionOps ----------------------------
(* Which files are documents, and how the commands answer for each file.      *)
(*                                                                            *)
(* A file: [container, header, damage].  The container is "ole" or something  *)
(* that is not one; the header stream is "good", carries a signature that     *)
(* differs at one byte ("byte n"), is cut ("short n", shorter than it should  *)
(* be), longer ("long"), missing or a storage; the document has a damage.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

HeaderSize == 256
SignatureSize == 32
Container(f) == f.container = "ole"
(* [kind, n]: "short" has n bytes, "byte" differs in byte n *)
Recognised(f) == /\ Container(f)
                 /\ CASE f.header[1] = "good" -> TRUE
                      [] f.header[1] = "long" -> TRUE
                      [] f.header[1] = "short" -> f.header[2] >= HeaderSize
                      [] f.header[1] = "byte" -> f.header[2] >= SignatureSize
                      [] OTHER -> FALSE

(* a command: [name, view, reads]: the parts of the document it reads.  With  *)
(* the view "ole" it takes any container.                                     *)
Converts(c) == [name |-> c, view |-> "", reads |-> {"DocInfo", "Section0"}]
Show(n, view, parts) == [name |-> n, view |-> view, reads |-> parts]
Commands ==
  { Converts(c) : c \in {"text", "odt", "styles", "content", "fodt", "html", "css", "xhtml", "xml"} }
  \cup { Show("version", "", {}), Show("header", "", {}), Show("summaryinfo", "", {}),
         Show("ls", "", {}), Show("ls", "vstreams", {}), Show("ls", "ole", {}),
         Show("unpack", "", {}), Show("unpack", "vstreams", {"DocInfo if any", "Section0"}), Show("unpack", "ole", {}),
         Show("cat DocInfo", "", {"DocInfo stream"}), Show("cat DocInfo", "ole", {"DocInfo stream"}), Show("cat DocInfo.records", "vstreams", {"DocInfo"}),
         Show("cat BodyText/Section0", "", {"Section0 stream"}), Show("cat BodyText/Section0.models", "vstreams", {"Section0"}),
         Show("records DocInfo", "", {"DocInfo"}), Show("records BodyText/Section0", "", {"Section0"}), Show("models BodyText/Section0", "", {"Section0"}), Show("models docinfo", "", {"DocInfo"}),
         Show("find", "", {"DocInfo", "Section0"}), Show("find from stdin", "", {"DocInfo", "Section0"}) }

(* what cannot be read of a document with a damage *)
Unreadable(d) == CASE d = "" -> {}
                   [] d = "no DocInfo" -> {"DocInfo", "DocInfo stream"}
                   [] d = "cut DocInfo" -> {"DocInfo", "DocInfo if any"}
                   [] d = "cut section" -> {"Section0"}
                   [] d = "garbage section" -> {"Section0"}
(* "cat DocInfo" of a document without it ends with an error, "unpack" and    *)
(* "ls" show what is there                                                    *)
Damages == {"", "no DocInfo", "cut DocInfo", "cut section", "garbage section"}

Accepted(f, c) == IF c.view = "ole" THEN Container(f) ELSE Recognised(f)
Outcome(f, c) == IF ~Accepted(f, c) THEN "refused"
                 ELSE IF c.reads \cap Unreadable(f.damage) # {} THEN "failed" ELSE "done"

(* an observation: [status, raised, printed, made, message]: the status (-1   *)
(* none), the name of an exception that escaped, whether anything was printed *)
(* on the standard output, made or changed among the files, reported          *)
Fits(o, outcome) ==
  CASE outcome = "refused" -> IF o.raised # "" THEN "refusal is an exception"
                              ELSE IF o.status = 0 THEN "refusal exits with success"
                              ELSE IF o.printed THEN "refusal prints to the standard output"
                              ELSE IF o.made THEN "refusal creates or changes files"
                              ELSE IF ~o.message THEN "refusal has no message"
                              ELSE ""
    [] outcome = "failed" -> IF o.status = 0 /\ o.raised = "" THEN "failure exits with success" ELSE ""
    [] outcome = "done" -> IF o.raised # "" \/ o.status # 0 THEN "fails on a good document" ELSE ""
=============================================================================
