---------------------------- MODULE RecordStream ----------------------------
(* A record stream: writing records, cutting the stream, reading it back and *)
(* selecting from what was read.                                             *)
(*                                                                           *)
(* A record is [tag, level, size]; its payload is opaque (the harness gives  *)
(* payload i of a behaviour a content of its own).  Headers are 32-bit words *)
(* kept as two 16-bit limbs <<lo, hi>> (TLC integers are 32 bits wide):      *)
(*    bits 0-9 tag, 10-19 level, 20-31 size or ShortMax (= "extended").      *)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS ShortMax,     \* 4095: sizes from here on need the extended field
          Recs,         \* the records a writer may write
          MaxLen,       \* how many
          CutMode,      \* "none" | "all" (every class of cut points)
          EmitSel       \* print selections too

Min(a, b) == IF a < b THEN a ELSE b

--------------------------------------------------------------------------------
(* the framing *)
Extended(r) == r.size >= ShortMax
HdrWord(r) == << r.tag + (r.level % 64) * 1024,
                 (r.level \div 64) + 16 * Min(r.size, ShortMax) >>
SizeWord(r) == << r.size % 65536, r.size \div 65536 >>
HdrLen(r)   == IF Extended(r) THEN 8 ELSE 4
RecLen(r)   == HdrLen(r) + r.size

WordTag(w)   == w[1] % 1024
WordLevel(w) == (w[1] \div 1024) + (w[2] % 16) * 64
WordSize(w)  == w[2] \div 16
WordValue(w) == w[1] + 65536 * w[2]

RECURSIVE EndOf(_, _)
EndOf(s, n) == IF n = 0 THEN 0 ELSE EndOf(s, n - 1) + RecLen(s[n])
Total(s) == EndOf(s, Len(s))

--------------------------------------------------------------------------------
VARIABLES written,    \* what the writer wrote
          phase,      \* "write" | "header" | "size" | "payload" | "done"
          cut,        \* bytes of the stream the reader can see
          pos,        \* bytes consumed
          hdr,        \* the header being read
          delivered,  \* records given to the caller
          status      \* "run" | "end" | "error"
vars == <<written, phase, cut, pos, hdr, delivered, status>>

NoHdr == [tag |-> 0, level |-> 0, size |-> 0]

Init == /\ written = <<>> /\ phase = "write" /\ cut = 0 /\ pos = 0
        /\ hdr = NoHdr /\ delivered = <<>> /\ status = "run"

Write(r) == /\ phase = "write" /\ Len(written) < MaxLen
            /\ written' = Append(written, r)
            /\ UNCHANGED <<phase, cut, pos, hdr, delivered, status>>

(* the classes of cut points: around the end of every record, of every header *)
CutPoints ==
  IF CutMode = "none" THEN {Total(written)}
  ELSE { c \in UNION { { EndOf(written, i) + d : d \in {0, 1, 2, 3, 4, 5, 7, 8, 9} }
                       \cup { EndOf(written, i) - d : d \in {0, 1, 2} } : i \in 0 .. Len(written) } :
         c <= Total(written) /\ c >= 0 }

StartRead(c) == /\ phase = "write" /\ phase' = "header" /\ cut' = c
                /\ UNCHANGED <<written, pos, hdr, delivered, status>>

Avail == cut - pos
Finish(st) == /\ phase' = "done" /\ status' = st
              /\ UNCHANGED <<written, cut, pos, hdr, delivered>>

(* the word at byte pos, which is where record number Len(delivered)+1 starts *)
WordHere == HdrWord(written[Len(delivered) + 1])
ReadHeader ==
  /\ phase = "header"
  /\ IF Avail = 0 THEN Finish("end")
     ELSE IF Avail < 4 THEN Finish("error")
     ELSE /\ pos' = pos + 4
          /\ hdr' = [tag |-> WordTag(WordHere), level |-> WordLevel(WordHere),
                     size |-> WordSize(WordHere)]
          /\ phase' = IF WordSize(WordHere) = ShortMax THEN "size" ELSE "payload"
          /\ UNCHANGED <<written, cut, delivered, status>>

ReadSize ==
  /\ phase = "size"
  /\ IF Avail < 4 THEN Finish("error")
     ELSE /\ pos' = pos + 4
          /\ hdr' = [hdr EXCEPT !.size = WordValue(SizeWord(written[Len(delivered) + 1]))]
          /\ phase' = "payload"
          /\ UNCHANGED <<written, cut, delivered, status>>

ReadPayload ==
  /\ phase = "payload"
  /\ IF Avail < hdr.size THEN Finish("error")
     ELSE /\ pos' = pos + hdr.size
          /\ delivered' = Append(delivered, hdr)
          /\ phase' = "header"
          /\ UNCHANGED <<written, cut, hdr, status>>

Next == \/ \E r \in Recs : Write(r)
        \/ \E c \in CutPoints : StartRead(c)
        \/ ReadHeader \/ ReadSize \/ ReadPayload

--------------------------------------------------------------------------------
(* C01 / C02 on the specification *)
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1 .. Len(a) : a[i] = b[i]
WholeBefore(c) == CHOOSE n \in 0 .. Len(written) :
                     /\ EndOf(written, n) <= c
                     /\ \A m \in n + 1 .. Len(written) : EndOf(written, m) > c

TypeOK == pos <= cut /\ Len(delivered) <= Len(written)
RoundTrip == \A i \in 1 .. Len(written) :
               LET w == HdrWord(written[i]) IN
                 /\ w[1] < 65536 /\ w[2] < 65536
                 /\ WordTag(w) = written[i].tag /\ WordLevel(w) = written[i].level
                 /\ WordSize(w) = ShortMax <=> Extended(written[i])
Lossless == IsPrefix(delivered, written)
AllDelivered == phase = "done" =>
                  /\ Len(delivered) = WholeBefore(cut)
                  /\ (status = "end") <=> (cut = EndOf(written, Len(delivered)))
NoPartial == \A i \in 1 .. Len(delivered) : EndOf(written, i) <= cut
Consumed == phase = "header" => pos = EndOf(written, Len(delivered))

--------------------------------------------------------------------------------
(* selections: all as sequences of record numbers (from zero) *)
RangeSel(n, a, b) == [k \in 1 .. (IF Min(b, n) > a THEN Min(b, n) - a ELSE 0) |-> a + k - 1]
NthSel(n, i) == RangeSel(n, i, i + 1)
IsTop(s, i) == i = 1 \/ s[i].level = 0
TreeStarts(s) == { i \in 1 .. Len(s) : IsTop(s, i) }
RECURSIVE Trees(_, _, _)
Trees(s, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF IsTop(s, i) THEN Trees(s, i + 1, Append(acc, <<i - 1>>))
  ELSE Trees(s, i + 1, [acc EXCEPT ![Len(acc)] = Append(@, i - 1)])
TreesOf(s) == Trees(s, 1, <<>>)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

SelectionsPartition ==
  phase = "done" =>
    LET s == delivered t == TreesOf(s) IN
      /\ Concat(t) = RangeSel(Len(s), 0, Len(s))
      /\ \A k \in 1 .. Len(t) : Len(t[k]) > 0
      /\ \A k \in 2 .. Len(t) : s[t[k][1] + 1].level = 0
      /\ \A k \in 1 .. Len(t) : \A j \in 2 .. Len(t[k]) : s[t[k][j] + 1].level # 0

--------------------------------------------------------------------------------
(* behaviours for replay *)
Brief(s) == [i \in 1 .. Len(s) |-> <<s[i].tag, s[i].level, s[i].size>>]
Hdrs(s) == [i \in 1 .. Len(s) |-> <<HdrWord(s[i])[1], HdrWord(s[i])[2],
                                    IF Extended(s[i]) THEN 1 ELSE 0,
                                    SizeWord(s[i])[1], SizeWord(s[i])[2]>>]
Emit == phase = "done" =>
  PrintT("@@" \o ToJson(
    [w |-> Brief(written), h |-> Hdrs(written), cut |-> cut, total |-> Total(written),
     n |-> Len(delivered), st |-> status,
     trees |-> IF EmitSel THEN TreesOf(delivered) ELSE <<>>,
     ranges |-> IF EmitSel
                THEN [ab \in 1 .. (Len(delivered) + 2) * (Len(delivered) + 2) |->
                        LET m == Len(delivered) + 2
                            a == (ab - 1) \div m
                            b == (ab - 1) % m
                        IN <<a, b, RangeSel(Len(delivered), a, b)>>]
                ELSE <<>>]))

(* record sets used by the configurations *)
FramingRecs == [tag : {16, 66, 1023}, level : {0, 1, 63, 64, 1023},
                size : {0, 1, 255, 4094, 4095, 4096, 70000}]
PairRecs == [tag : {16, 1023}, level : {0, 64}, size : {0, 1, 4094, 4095, 4096}]
TreeRecs == [tag : {66}, level : {0, 1, 2}, size : {0, 3}]
CutRecs == [tag : {900}, level : {1}, size : {0, 1, 4, 9, 4094, 4095, 4100}]
=============================================================================
