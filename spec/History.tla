------------------------------- MODULE History -------------------------------
(* A process that reads several documents: handles on them (two of them on the  *)
(* same document), readers of their parts that are opened, stepped, run to the  *)
(* end, abandoned, and handles that are closed, in any order.  What is kept     *)
(* between them is modelled: the layouts of types, compiled once per process,   *)
(* and the values remembered by a handle.  A part has two pieces: the reader    *)
(* gives the first and the second, and then nothing.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Handles,     \* handle -> document, as a sequence
          Versions,    \* document -> version, as a sequence
          Parts,       \* parts of documents: "record" parts depend on layouts, "value" ones are remembered
          MaxReaders, MaxOps,
          CacheKey,    \* "type and version" as implemented; "type" is what would be wrong
          Closing      \* handles may be closed

Of(h) == Handles[h]
Version(h) == Versions[Of(h)]
Remembered == {"value"}

VARIABLES layouts,     \* compiled layouts: key -> version
          memo,        \* values remembered: <<handle, part>> -> value
          readers,     \* [h, part, pos], pos = -1 when abandoned
          closed, log
vars == <<layouts, memo, readers, closed, log>>

Key(h, p) == IF CacheKey = "type" THEN p ELSE <<p, Version(h)>>
Layout(h, p) == IF Key(h, p) \in DOMAIN layouts THEN layouts[Key(h, p)] ELSE Version(h)
Compiled(h, p) == IF Key(h, p) \in DOMAIN layouts THEN layouts ELSE layouts @@ (Key(h, p) :> Version(h))

(* piece n of a part as it is stored; what it depends on *)
Due(d, p, n) == IF n > 2 THEN <<"end">> ELSE <<d, p, n, Versions[d]>>
(* what the process comes up with *)
Made(h, p, n) == IF n > 2 THEN <<"end">> ELSE <<Of(h), p, n, Layout(h, p)>>
Value(h, p, n) == IF p \in Remembered /\ <<h, p, n>> \in DOMAIN memo THEN memo[<<h, p, n>>] ELSE Made(h, p, n)

Init == layouts = <<>> /\ memo = <<>> /\ readers = <<>> /\ closed = {} /\ log = <<>>
Log(op, h, p, r, res) == log' = Append(log, [op |-> op, h |-> h, p |-> p, r |-> r, res |-> res])
Open(h, p) ==
  /\ h \notin closed /\ Len(readers) < MaxReaders
  /\ readers' = Append(readers, [h |-> h, part |-> p, pos |-> 0])
  /\ Log("open", h, p, Len(readers) + 1, <<>>) /\ UNCHANGED <<layouts, memo, closed>>
Active(r) == readers[r].pos >= 0 /\ readers[r].h \notin closed
Step(r) ==
  LET x == readers[r] n == x.pos + 1 IN
  /\ Active(r) /\ n <= 3
  /\ readers' = [readers EXCEPT ![r].pos = n]
  /\ layouts' = Compiled(x.h, x.part)
  /\ memo' = IF x.part \in Remembered /\ n <= 2 /\ <<x.h, x.part, n>> \notin DOMAIN memo THEN memo @@ (<<x.h, x.part, n>> :> Made(x.h, x.part, n)) ELSE memo
  /\ Log("step", x.h, x.part, r, <<Value(x.h, x.part, n)>>) /\ UNCHANGED closed
Drain(r) ==
  LET x == readers[r] IN
  /\ Active(r) /\ x.pos <= 1
  /\ readers' = [readers EXCEPT ![r].pos = 3]
  /\ layouts' = Compiled(x.h, x.part)
  /\ memo' = IF x.part \in Remembered THEN memo @@ (<<x.h, x.part, 1>> :> Made(x.h, x.part, 1)) @@ (<<x.h, x.part, 2>> :> Made(x.h, x.part, 2)) ELSE memo
  /\ Log("drain", x.h, x.part, r, [k \in 1 .. 2 - x.pos |-> Value(x.h, x.part, x.pos + k)]) /\ UNCHANGED closed
Drop(r) ==
  /\ Active(r) /\ readers[r].pos \in {0, 1}
  /\ readers' = [readers EXCEPT ![r].pos = -1]
  /\ Log("drop", readers[r].h, readers[r].part, r, <<>>) /\ UNCHANGED <<layouts, memo, closed>>
Close(h) ==
  /\ Closing /\ h \notin closed /\ \E r \in 1 .. Len(readers) : readers[r].h = h
  /\ closed' = closed \cup {h}
  /\ Log("close", h, "", 0, <<>>) /\ UNCHANGED <<layouts, memo, readers>>
Next == /\ Len(log) < MaxOps
        /\ \/ \E h \in 1 .. Len(Handles), p \in Parts : Open(h, p)
           \/ \E r \in 1 .. Len(readers) : Step(r) \/ Drain(r) \/ Drop(r)
           \/ \E h \in 1 .. Len(Handles) : Close(h)

(* ---- what is promised ---- *)
From(k) == LET l == log[k] IN Cardinality({ j \in 1 .. k - 1 : log[j].r = l.r /\ log[j].op = "step" })
Independent == \A k \in 1 .. Len(log) : log[k].op \in {"step", "drain"} =>
  \A n \in 1 .. Len(log[k].res) : log[k].res[n] = Due(Of(log[k].h), log[k].p, From(k) + n)
(* what was handed out stays as it was: the log only grows *)
Kept == [][\A k \in 1 .. Len(log) : log'[k] = log[k]]_vars
Two == <<1, 1>>
Three == <<1, 1, 2>>
Four == <<1, 2, 3, 1>>
OneVersion == <<7, 7, 7>>
ThreeVersions == <<7, 8, 9>>
Emit == Len(log) = MaxOps => PrintT("@@" \o ToJson([log |-> log]))
=============================================================================
