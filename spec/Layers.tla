------------------------------- MODULE Layers -------------------------------
(* What a stream of a document reads as, for every combination of header     *)
(* flags, and the independence of open streams.                              *)
(*                                                                           *)
(* Content is symbolic: "x" is opaque plain content, <<"deflate", c>> and    *)
(* <<"dist", c>> are c compressed and c encrypted with a distribution head.  *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Flags,        \* set of [compressed, password, distributable]
          Entries,      \* set of <<storage, stream>>; storage "" is the root
          Kinds,        \* stored contents
          Units,        \* length of a content in units
          MaxOps, Sizes \* histories

Body == {"BodyText", "ViewText", "BinData", "Scripts"}
InflatedIn(e) == e[1] \in Body \/ (e[1] = "" /\ e[2] = "DocInfo")
EncryptedIn(e) == e[1] \in {"ViewText", "Scripts"}

Plain == <<"x">>
Inflate(c) == IF c[1] = "deflate" THEN c[2] ELSE c   \* not a deflate stream: as stored
Decrypt(c) == IF c[1] = "dist" THEN c[2] ELSE <<"error">>

(* the layers, innermost first, as the flags prescribe *)
Decrypted(f, e, c) == IF ~f.password /\ f.distributable /\ EncryptedIn(e) THEN Decrypt(c) ELSE c
View(f, e, c) ==
  LET d == Decrypted(f, e, c) IN
  IF d[1] = "error" THEN d
  ELSE IF ~f.password /\ f.compressed /\ InflatedIn(e) THEN Inflate(d) ELSE d
TextFrom(f) == IF f.distributable THEN "ViewText" ELSE "BodyText"

--------------------------------------------------------------------------------
VARIABLES flags, stored,   \* the document: one kind of content for every entry
          handles,         \* opened streams <<entry, position>>
          log              \* operations and their results
vars == <<flags, stored, handles, log>>

Init == /\ flags \in Flags /\ stored \in [Entries -> Kinds]
        /\ handles = <<>> /\ log = <<>>

Readable(e) == View(flags, e, stored[e])[1] # "error"
Open(e) == /\ Len(log) < MaxOps /\ Readable(e)
           /\ handles' = Append(handles, <<e, 0>>)
           /\ log' = Append(log, [op |-> "open", e |-> e, h |-> Len(handles) + 1, n |-> 0,
                                  from |-> 0, to |-> 0, view |-> View(flags, e, stored[e])])
           /\ UNCHANGED <<flags, stored>>
Refuse(e) == /\ Len(log) < MaxOps /\ ~Readable(e)
             /\ log' = Append(log, [op |-> "refuse", e |-> e, h |-> 0, n |-> 0,
                                    from |-> 0, to |-> 0, view |-> <<"error">>])
             /\ UNCHANGED <<flags, stored, handles>>
(* n = 0: everything that is left *)
Read(h, n) ==
  /\ Len(log) < MaxOps
  /\ LET e == handles[h][1]
         p == handles[h][2]
         q == IF n = 0 \/ p + n > Units THEN Units ELSE p + n
     IN /\ handles' = [handles EXCEPT ![h] = <<e, q>>]
        /\ log' = Append(log, [op |-> "read", e |-> e, h |-> h, n |-> n,
                               from |-> p, to |-> q, view |-> View(flags, e, stored[e])])
  /\ UNCHANGED <<flags, stored>>
Next == (\E e \in Entries : Open(e) \/ Refuse(e))
        \/ (\E h \in 1 .. Len(handles), n \in Sizes : Read(h, n))

--------------------------------------------------------------------------------
(* the properties *)
PasswordIsRaw == flags.password => \A e \in Entries : View(flags, e, stored[e]) = stored[e]
OthersAreRaw == \A e \in Entries : ~InflatedIn(e) => View(flags, e, stored[e]) = stored[e]
NoFlagsIsRaw == ~flags.compressed /\ ~flags.distributable =>
                  \A e \in Entries : View(flags, e, stored[e]) = stored[e]
(* what a producer that follows the flags stored reads back as the original *)
Store(f, e) == LET c == IF f.compressed /\ InflatedIn(e) THEN <<"deflate", Plain>> ELSE Plain
               IN IF f.distributable /\ EncryptedIn(e) THEN <<"dist", c>> ELSE c
ProducerConsumer == ~flags.password =>
                      \A e \in Entries : View(flags, e, Store(flags, e)) = Plain
(* every handle reads a contiguous range from its own start, whatever others do *)
Independent ==
  \A h \in 1 .. Len(handles) :
    LET rs == SelectSeq(log, LAMBDA r : r.op = "read" /\ r.h = h) IN
      /\ rs # <<>> => rs[1].from = 0
      /\ \A k \in 2 .. Len(rs) : rs[k].from = rs[k - 1].to

RECURSIVE Str(_)
Str(c) == IF Len(c) = 1 THEN c[1] ELSE c[1] \o "(" \o Str(c[2]) \o ")"
FlagBits(f) == <<IF f.compressed THEN 1 ELSE 0, IF f.password THEN 1 ELSE 0, IF f.distributable THEN 1 ELSE 0>>
EmitViews == log = <<>> =>
  PrintT("@@" \o ToJson([flags |-> FlagBits(flags), text |-> TextFrom(flags),
     views |-> { <<e[1], e[2], Str(stored[e]), Str(View(flags, e, stored[e])),
                   Str(Decrypted(flags, e, stored[e]))>> : e \in Entries }]))
EmitLog == Len(log) = MaxOps =>
  PrintT("@@" \o ToJson([flags |-> FlagBits(flags),
     stored |-> { <<e[1], e[2], Str(stored[e])>> : e \in Entries },
     log |-> [i \in 1 .. Len(log) |-> [op |-> log[i].op, e |-> log[i].e, h |-> log[i].h, n |-> log[i].n,
                                       from |-> log[i].from, to |-> log[i].to, view |-> Str(log[i].view)]]]))

--------------------------------------------------------------------------------
AllFlags == [compressed : BOOLEAN, password : BOOLEAN, distributable : BOOLEAN]
AllKinds == {Plain, <<"deflate", Plain>>, <<"dist", Plain>>, <<"dist", <<"deflate", Plain>>>>}
AllEntries == { <<"", "FileHeader">>, <<"", "DocInfo">>, <<"", "PrvText">>, <<"", "PrvImage">>,
                <<"", "SummaryInformation">>, <<"DocOptions", "_LinkDoc">>,
                <<"BodyText", "Section0">>, <<"BodyText", "Section1">>, <<"BodyText", "Other">>,
                <<"ViewText", "Section0">>, <<"ViewText", "Section10">>,
                <<"BinData", "BIN0001.bmp">>, <<"Scripts", "DefaultJScript">>, <<"Scripts", "JScriptVersion">> }
(* views are entry-wise: one kind for all entries covers every (flags, entry, kind) *)
ViewInit == /\ flags \in Flags /\ \E k \in Kinds : stored = [e \in Entries |-> k]
            /\ handles = <<>> /\ log = <<>>
NoNext == FALSE /\ UNCHANGED vars
FlagOf(c, p, d) == [compressed |-> c, password |-> p, distributable |-> d]
HistFlags == { FlagOf(TRUE, FALSE, TRUE), FlagOf(TRUE, FALSE, FALSE), FlagOf(FALSE, TRUE, FALSE) }
HistEntries == { <<"ViewText", "Section0">>, <<"BinData", "BIN0001.bmp">> }
HistInit == /\ flags \in Flags /\ stored = [e \in Entries |-> Store(flags, e)]
            /\ handles = <<>> /\ log = <<>>
=============================================================================
