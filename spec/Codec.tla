-------------------------------- MODULE Codec --------------------------------
(* The raw-deflate codec: histories of an incremental encoder and decoder.   *)
(* Content is symbolic: units numbered in the order they are given.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Chunks,      \* sizes of the pieces given (in units)
          MaxOps
VARIABLES log,         \* what was done: [op, k, from]
          given,       \* units given so far (numbering)
          plain,       \* content of the stream under way: sequence of units
          ended,       \* the stream was finished
          streams      \* finished streams: [ops, plain]
vars == <<log, given, plain, ended, streams>>
Init == log = <<>> /\ given = 0 /\ plain = <<>> /\ ended = FALSE /\ streams = <<>>
Units(a, k) == [j \in 1 .. k |-> a + j]
Give(k, final) ==
  /\ Len(log) < MaxOps /\ ~ended
  /\ log' = Append(log, [op |-> IF final THEN "final" ELSE "give", k |-> k, from |-> given])
  /\ given' = given + k
  /\ plain' = plain \o Units(given, k)
  /\ ended' = final
  /\ streams' = IF final THEN Append(streams, plain') ELSE streams
Reset ==
  /\ Len(log) < MaxOps
  /\ log' = Append(log, [op |-> "reset", k |-> 0, from |-> given])
  /\ plain' = <<>> /\ ended' = FALSE /\ UNCHANGED <<given, streams>>
Next == Reset \/ \E k \in Chunks, f \in BOOLEAN : Give(k, f)

(* encoding then decoding is the identity: what a decoder finds in a finished *)
(* stream is what was given since the last reset, in order and nothing else   *)
RECURSIVE Since(_, _)
Since(l, i) == IF i = 0 \/ l[i].op = "reset" THEN <<>> ELSE Since(l, i - 1) \o Units(l[i].from, l[i].k)
Identity == Len(log) > 0 /\ log[Len(log)].op = "final" => streams[Len(streams)] = Since(log, Len(log))
Fresh == \A a, b \in 1 .. Len(streams) : a # b =>
   { streams[a][j] : j \in 1 .. Len(streams[a]) } \cap { streams[b][j] : j \in 1 .. Len(streams[b]) } = {}
Emit == Len(log) = MaxOps /\ streams # <<>> =>
   PrintT("@@" \o ToJson([log |-> log, streams |-> streams]))
=============================================================================
