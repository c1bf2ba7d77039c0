------------------------------- MODULE DistHead -------------------------------
(* The head of a stream of a distribution document: 256 bytes, of which the   *)
(* first four are a seed and the rest is masked by bytes from a random number *)
(* generator (the rand() of MSVC), each used for a run of 1 to 16 bytes.      *)
(* Runs are counted from the first byte of the head.  Numbers of 32 bits are  *)
(* pairs <<high, low>>.                                                        *)
EXTENDS Integers, Sequences, Bitwise, TLC

SIZE == 256
DIGEST == 80      \* bytes of the digest
KEY == 16

(* seed * 214013 + 2531011, modulo 2^32; 214013 = 3 * 2^16 + 17405, 2531011 = 38 * 2^16 + 40643 *)
NextSeed(s) == LET low == 17405 * s[2] + 40643
               IN << (low \div 65536 + 17405 * s[1] + 3 * s[2] + 38) % 65536, low % 65536 >>
Rand(s) == s[1] % 32768
SeedOf(head) == << head[3] + 256 * head[4], head[1] + 256 * head[2] >>
Place(seed) == 4 + (seed[2] % 16)

(* the mask as a whole *)
RECURSIVE Mask(_, _)
Mask(seed, n) ==  \* n bytes of it
  IF n <= 0 THEN <<>>
  ELSE LET s == NextSeed(seed) t == NextSeed(s) run == (Rand(t) % 16) + 1
       IN TLCEval([i \in 1 .. (IF run < n THEN run ELSE n) |-> Rand(s) % 256] \o Mask(t, n - run))
Unmask(head) == LET m == Mask(SeedOf(head), SIZE) IN TLCEval([i \in 1 .. SIZE |-> IF i <= 4 THEN head[i] ELSE head[i] ^^ m[i]])
Digest(head) == LET p == Place(SeedOf(head)) IN SubSeq(Unmask(head), p + 1, p + DIGEST)
Key(head) == SubSeq(Digest(head), 1, KEY)
=============================================================================
