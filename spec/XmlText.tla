------------------------------- MODULE XmlText -------------------------------
(* Writing a string into XML, as the value of an attribute or as character    *)
(* data, in an output encoding; and what a conforming parser reads back       *)
(* (XML 1.0, 2.2 Char, 2.11 end-of-line handling, 3.3.3 attribute values).     *)
(* The writer takes one character at a time and hands its output on in chunks *)
(* of any size; the parser takes one unit at a time.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chars,        \* code points to choose from
          MaxLen,
          Encodings,
          WordSet       \* strings to take besides those of Chars, sequences of code points

AMP == 38 LT == 60 GT == 62 QUOT == 34 APOS == 39 TAB == 9 LF == 10 CR == 13 SP == 32 RSB == 93 SEMI == 59 HASH == 35
NoWords == {}
SomeWords == { <<RSB, RSB, GT>>, <<CR, LF, CR>>, <<AMP, HASH, 49, 51, SEMI>>, <<AMP, 108, 116, SEMI>>, <<SP, SP, TAB, SP>>, <<LT, 33, 45, 45>>,
               <<55357, 56832>>, <<65279, 65>>, <<65, 768, 4352, 4449>> }

Legal(c) == c \in {TAB, LF, CR} \/ c \in 32 .. 55295 \/ c \in 57344 .. 65533 \/ c \in 65536 .. 1114111
Keep(s) == SelectSeq(s, Legal)
Representable(e, c) == CASE e \in {"utf-8", "utf-16"} -> TRUE
                         [] e = "us-ascii" -> c < 128
                         [] e = "iso-8859-1" -> c < 256
                         [] e = "euc-kr" -> c < 128 \/ c \in {44032, 8251}

Digit(n) == 48 + n
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<Digit(n)>> ELSE Decimal(n \div 10) \o <<Digit(n % 10)>>
CharRef(n) == <<AMP, HASH>> \o Decimal(n) \o <<SEMI>>
Entity(c) == CASE c = AMP -> <<AMP, 97, 109, 112, SEMI>> [] c = LT -> <<AMP, 108, 116, SEMI>> [] c = GT -> <<AMP, 103, 116, SEMI>>
               [] c = QUOT -> <<AMP, 113, 117, 111, 116, SEMI>>
               [] OTHER -> CharRef(c)

(* the units a character is written as *)
Write(c, where, e) ==
  CASE ~Legal(c) -> <<>>
    [] c \in {AMP, LT, GT} -> Entity(c)
    [] c = QUOT /\ where = "attribute" -> Entity(c)
    [] c \in {TAB, LF} /\ where = "attribute" -> CharRef(c)
    [] c = CR -> CharRef(c)
    [] ~Representable(e, c) -> CharRef(c)
    [] OTHER -> <<c>>

VARIABLES where, enc, input,
          pos,          \* characters written
          buffer,       \* units written, not yet handed on
          marks,        \* byte order marks put out
          out,          \* units handed on
          rpos,         \* units parsed
          ref,          \* the reference being read, <<>> outside of one
          last,         \* the unit before, for line ends and "]]>"
          last2,
          parsed, state
vars == <<where, enc, input, pos, buffer, marks, out, rpos, ref, last, last2, parsed, state>>

Strings(n) == UNION { [1 .. i -> Chars] : i \in 0 .. n }
Init == /\ where \in {"attribute", "text"} /\ enc \in Encodings /\ input \in Strings(MaxLen) \cup WordSet
        /\ pos = 0 /\ buffer = <<>> /\ marks = 0 /\ out = <<>> /\ rpos = 0 /\ ref = <<>> /\ last = 0 /\ last2 = 0 /\ parsed = <<>> /\ state = "write"

PutChar == /\ state = "write" /\ pos < Len(input)
           /\ pos' = pos + 1 /\ buffer' = buffer \o Write(input[pos + 1], where, enc)
           /\ UNCHANGED <<where, enc, input, marks, out, rpos, ref, last, last2, parsed, state>>
(* a chunk: the first one of a 16 bit encoding begins with the byte order mark *)
Chunk == /\ state = "write" /\ (buffer # <<>> \/ pos = Len(input))
         /\ out' = out \o buffer /\ buffer' = <<>>
         /\ marks' = IF enc = "utf-16" /\ marks = 0 THEN 1 ELSE marks
         /\ state' = IF pos = Len(input) THEN "read" ELSE "write"
         /\ UNCHANGED <<where, enc, input, pos, rpos, ref, last, last2, parsed>>

RECURSIVE Number(_)
Number(s) == IF s = <<>> THEN 0 ELSE Number(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
Resolve(r) == \* r: the units after the ampersand
  IF r = <<97, 109, 112>> THEN AMP ELSE IF r = <<108, 116>> THEN LT ELSE IF r = <<103, 116>> THEN GT
  ELSE IF r = <<113, 117, 111, 116>> THEN QUOT ELSE IF r = <<97, 112, 111, 115>> THEN APOS
  ELSE IF Len(r) > 1 /\ r[1] = HASH /\ \A i \in 2 .. Len(r) : r[i] \in 48 .. 57 THEN Number(Tail(r)) ELSE 0

Fail == state' = "malformed" /\ UNCHANGED <<rpos, ref, last, last2, parsed>>
Read ==
  /\ state = "read" /\ rpos < Len(out)
  /\ UNCHANGED <<where, enc, input, pos, buffer, marks, out>>
  /\ LET u == out[rpos + 1] IN
     IF ref # <<>>
     THEN IF u = SEMI
          THEN LET c == Resolve(Tail(ref)) IN
               IF c = 0 \/ ~Legal(c) THEN Fail
               ELSE rpos' = rpos + 1 /\ ref' = <<>> /\ parsed' = Append(parsed, c) /\ last' = 0 /\ last2' = 0 /\ state' = state
          ELSE rpos' = rpos + 1 /\ ref' = Append(ref, u) /\ UNCHANGED <<parsed, last, last2, state>>
     ELSE IF ~Legal(u) \/ u = LT \/ (where = "attribute" /\ u = QUOT) \/ (where = "text" /\ u = GT /\ last = RSB /\ last2 = RSB) \/ ~Representable(enc, u) THEN Fail
     ELSE IF u = AMP THEN rpos' = rpos + 1 /\ ref' = <<AMP>> /\ UNCHANGED <<parsed, last, last2, state>>
     ELSE /\ rpos' = rpos + 1 /\ last' = u /\ last2' = last /\ UNCHANGED <<ref, state>>
          /\ parsed' = IF u = LF /\ last = CR THEN parsed
                       ELSE Append(parsed, IF where = "attribute" /\ u \in {TAB, LF, CR} THEN SP ELSE IF u = CR THEN LF ELSE u)
End == /\ state = "read" /\ rpos = Len(out) /\ state' = IF ref = <<>> THEN "done" ELSE "malformed"
       /\ UNCHANGED <<where, enc, input, pos, buffer, marks, out, rpos, ref, last, last2, parsed>>
Next == PutChar \/ Chunk \/ Read \/ End

--------------------------------------------------------------------------------
WellFormed == state # "malformed"
RoundTrip == state = "done" => parsed = Keep(input)
OneMark == state = "done" => marks = (IF enc = "utf-16" THEN 1 ELSE 0)
InOrder == state = "write" => pos <= Len(input)
(* what comes out does not depend on the chunks: it is a function of the input *)
RECURSIVE All(_)
All(s) == IF s = <<>> THEN <<>> ELSE Write(s[1], where, enc) \o All(Tail(s))
ChunksDoNotMatter == state = "done" => out = All(input)
Emit == state = "done" => PrintT("@@" \o ToJson([where |-> where, enc |-> enc, input |-> input, keep |-> Keep(input)]))
=============================================================================
