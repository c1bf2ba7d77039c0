---------------------------- MODULE LayersTrace ----------------------------
(* Views recorded from real documents: for each stream the harness reports   *)
(* which of the candidate transformations of the stored bytes (computed with *)
(* its own inflate/decrypt) the real view equals.                            *)
(* DATA: <<[id, c, p, d (flags 0/1), storage, stream, stored (term: what the *)
(*   stored bytes are: "x" | "deflate" | "dist" | "distdeflate"), got: names *)
(*   of the terms the view equals]>>                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
L == INSTANCE Layers WITH Flags <- {}, Entries <- {}, Kinds <- {}, Units <- 0, MaxOps <- 0, Sizes <- {},
        flags <- 0, stored <- 0, handles <- 0, log <- 0
Runs == JsonDeserialize(IOEnv.DATA)
VARIABLE i
Init == i = 1
Term(t) == CASE t = "x" -> <<"x">> [] t = "deflate" -> <<"deflate", <<"x">>>>
             [] t = "dist" -> <<"dist", <<"x">>>> [] t = "distdeflate" -> <<"dist", <<"deflate", <<"x">>>>>>
(* which transformation of the stored bytes the view must be *)
Want(r) == LET f == L!FlagOf(r.c = 1, r.p = 1, r.d = 1)
               v == L!View(f, <<r.storage, r.stream>>, Term(r.stored))
           IN IF v = Term(r.stored) THEN "stored"
              ELSE IF v[1] = "error" THEN "error"
              ELSE IF r.stored = "deflate" THEN "inflated"
              ELSE IF v = <<"deflate", <<"x">>>> \/ r.stored = "dist" THEN "decrypted" ELSE "decrypted+inflated"
Next == /\ i <= Len(Runs) /\ i' = i + 1
        /\ LET r == Runs[i] w == Want(r) IN
             (\E k \in 1 .. Len(r.got) : r.got[k] = w)
             \/ PrintT("@@" \o ToJson([id |-> r.id, want |-> w, clause |-> "view"]))
=============================================================================
