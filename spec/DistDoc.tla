-------------------------------- MODULE DistDoc --------------------------------
(* A writer hides a digest in a head; a reader opens the head byte by byte,   *)
(* takes the key and decrypts the tail block by block.                        *)
EXTENDS DistHead, Aes, FiniteSets, TLC, Json

CONSTANTS Seeds, Digests, Tails

(* those whose first or second random number is at an edge *)
SeedsEdge == { <<904, 10966>>, <<4193, 33949>>, <<6418, 50412>>, <<8560, 63041>>, <<9000, 33949>>, <<15549, 50412>>, <<17426, 50412>>, <<18785,
33949>>, <<19080, 10966>>, <<23592, 33949>>, <<23887, 10966>>, <<26557, 50412>>, <<28699, 63041>>, <<33672, 10966>>, <<38479, 10966>>, <<39186,
50412>>, <<41328, 63041>>, <<41768, 33949>>, <<50459, 63041>>, <<51553, 33949>>, <<52336, 63041>>, <<56655, 10966>>, <<59325, 50412>>, <<61467,
63041>> }
SeedsA == SeedsEdge \cup { <<h, l>> : h \in {0, 32767, 32768, 65535, 4660}, l \in {0, 1, 7, 8, 15, 32783, 65520, 65535, 22136} } \cup { <<1, l>> : l \in 0 .. 15 }
SeedsB == SeedsEdge \cup { <<h, l>> : h \in {0, 1, 255, 256, 32767, 32768, 65535, 4660, 43981, 21845}, l \in (0 .. 15) \cup {256, 32767, 32768, 65280, 65520 , 65535, 22136, 43690} }
Hex == << 48, 65, 57, 70, 49, 66, 56, 69, 50, 67, 55, 68, 51, 53, 54, 52 >>
DigestOf(d) == CASE d = "hex" -> [i \in 1 .. DIGEST |-> IF i % 2 = 1 THEN Hex[((i \div 2) % 16) + 1] ELSE 0]
                 [] d = "zero" -> [i \in 1 .. DIGEST |-> 0]
                 [] d = "steps" -> [i \in 1 .. DIGEST |-> (37 * i) % 256]
                 [] d = "ones" -> [i \in 1 .. DIGEST |-> 255]
FillOf(d) == IF d = "zero" THEN 255 ELSE 90
TailOf(n) == [i \in 1 .. 16 * n |-> (91 * i + 7 * n + (i \div 16)) % 256]

VARIABLES hd, seed, digest, tail,
          clear, head,          \* of the writer
          i, run, pad, rng, data, key, plain, block, phase
vars == <<hd, seed, digest, tail, clear, head, i, run, pad, rng, data, key, plain, block, phase>>

ClearHead(s, d) == [j \in 1 .. SIZE |-> CASE j = 1 -> s[2] % 256 [] j = 2 -> s[2] \div 256 [] j = 3 -> s[1] % 256 [] j = 4 -> s[1] \div 256
                                          [] j > Place(s) /\ j <= Place(s) + DIGEST -> DigestOf(d)[j - Place(s)]
                                          [] OTHER -> (FillOf(d) + j) % 256]
Init == /\ hd = "none" /\ seed \in Seeds /\ digest \in Digests /\ tail \in Tails
        /\ clear = TLCEval(ClearHead(seed, digest))
        /\ head = (LET m == Mask(seed, SIZE) IN TLCEval([j \in 1 .. SIZE |-> IF j <= 4 THEN clear[j] ELSE clear[j] ^^ m[j]]))
        /\ i = 0 /\ run = 0 /\ pad = 0 /\ rng = <<0, 0>> /\ data = <<>> /\ key = <<>> /\ plain = <<>> /\ block = 0 /\ phase = "seed"

ReadSeed == /\ phase = "seed" /\ rng' = SeedOf(head) /\ phase' = "unmask"
            /\ UNCHANGED <<hd, seed, digest, tail, clear, head, i, run, pad, data, key, plain, block>>
NewRun == /\ phase = "unmask" /\ i < SIZE /\ run = 0
          /\ pad' = Rand(NextSeed(rng)) % 256 /\ run' = (Rand(NextSeed(NextSeed(rng))) % 16) + 1 /\ rng' = NextSeed(NextSeed(rng))
          /\ UNCHANGED <<hd, seed, digest, tail, clear, head, i, data, key, plain, block, phase>>
(* the rest of a run at once *)
Bytes == /\ phase = "unmask" /\ i < SIZE /\ run > 0
         /\ LET n == IF run < SIZE - i THEN run ELSE SIZE - i IN
            /\ data' = data \o [j \in 1 .. n |-> IF i + j <= 4 THEN head[i + j] ELSE head[i + j] ^^ pad]
            /\ i' = i + n /\ run' = run - n
         /\ UNCHANGED <<hd, seed, digest, tail, clear, head, pad, rng, key, plain, block, phase>>
GetKey == /\ phase = "unmask" /\ i = SIZE
          /\ LET s == << data[3] + 256 * data[4], data[1] + 256 * data[2] >> IN key' = SubSeq(data, Place(s) + 1, Place(s) + KEY)
          /\ phase' = "tail" /\ UNCHANGED <<hd, seed, digest, tail, clear, head, i, run, pad, rng, data, plain, block>>
NextBlock == /\ phase = "tail" /\ block < tail
             /\ plain' = plain \o Block(Expand(key), SubSeq(TailOf(tail), 16 * block + 1, 16 * block + 16)) /\ block' = block + 1
             /\ UNCHANGED <<hd, seed, digest, tail, clear, head, i, run, pad, rng, data, key, phase>>
End == /\ phase = "tail" /\ block = tail /\ phase' = "done"
       /\ UNCHANGED <<hd, seed, digest, tail, clear, head, i, run, pad, rng, data, key, plain, block>>
Next == ReadSeed \/ NewRun \/ Bytes \/ GetKey \/ NextBlock \/ End

Recovered == phase = "done" => data = clear /\ key = SubSeq(DigestOf(digest), 1, KEY)
Prescribed == phase = "done" => Digest(head) = DigestOf(digest) /\ Key(head) = key /\ Place(seed) \in 4 .. 19
OnlyDeclared == \A j \in 1 .. Len(data) : data[j] # head[j] => j > 4
Blockwise == phase = "done" => plain = Decrypt(key, TailOf(tail))
Bounds == run \in 0 .. 16 /\ pad \in 0 .. 255 /\ rng[1] \in 0 .. 65535 /\ rng[2] \in 0 .. 65535
Emit == phase = "done" => PrintT("@@" \o ToJson([head |-> head, digest |-> DigestOf(digest), key |-> key, tail |-> TailOf(tail), plain |-> plain]))

(* ---- which streams begin with such a head ---- *)
Tags == {28, 27, 29, 16, 66, 1023, 0}
Sizes == {0, 80, 255, 256, 257, 4095}
Accepted(h) == h.tag = 28 /\ h.size = SIZE /\ h.there >= h.size
Heads == { h \in [tag : Tags, level : {0, 1}, size : Sizes, long : BOOLEAN, there : {0, 4, 255, 256, 512}] :
             (h.size >= 4095 => h.long) /\ (h.there > h.size => h.there = 512) }
HInit == hd \in Heads /\ seed = <<0, 0>> /\ digest = "hex" /\ tail = 0 /\ clear = <<>> /\ head = <<>> /\ i = 0 /\ run = 0 /\ pad = 0 /\ rng = <<0, 0>>
         /\ data = <<>> /\ key = <<>> /\ plain = <<>> /\ block = 0 /\ phase = "h"
HNext == UNCHANGED vars
HEmit == PrintT("@@" \o ToJson([h |-> hd, accepted |-> Accepted(hd)]))
=============================================================================
