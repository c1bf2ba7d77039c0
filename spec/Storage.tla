------------------------------- MODULE Storage -------------------------------
(* A document as a tree of named streams: its listing, looking items up, and *)
(* unpacking it into a directory.                                            *)
(*                                                                           *)
(* A tree is a set of entries <<path, kind>>, path a sequence of names, kind  *)
(* "stream" or "storage"; storages above a stream are entries themselves.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Hostile,    \* Hostile: names that cannot be a file name inside a directory
          MaxEntries, MaxDepth,
          Ask                \* names used to look things up

VARIABLES tree, written, dirs, status
vars == <<tree, written, dirs, status>>

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE LET r == SeqsUpTo(S, n - 1) IN r \cup { Append(s, x) : s \in { q \in r : Len(q) = n - 1 }, x \in S }
Paths == SeqsUpTo(Names, MaxDepth) \ {<<>>}
Parent(p) == SubSeq(p, 1, Len(p) - 1)
PathsOf(t) == { e[1] : e \in t }
StorageIn(t, p) == p = <<>> \/ <<p, "storage">> \in t

(* building: a stored tree grows entry by entry *)
Init == tree = {} /\ written = {} /\ dirs = {} /\ status = "build"
Add(p, k) == /\ status = "build" /\ Cardinality(tree) < MaxEntries
             /\ p \notin PathsOf(tree) /\ StorageIn(tree, Parent(p))
             /\ tree' = tree \cup {<<p, k>>}
             /\ UNCHANGED <<written, dirs, status>>
Start == status = "build" /\ status' = "unpack" /\ UNCHANGED <<tree, written, dirs>>

(* looking up, listing *)
Children(t, p) == { e[1][Len(e[1])] : e \in { x \in t : Parent(x[1]) = p } }
Leaves(t) == { e[1] : e \in { x \in t : x[2] = "stream" } }
Exists(t, p) == p \in PathsOf(t)

(* unpacking: in any order, a storage before what it contains *)
Done(p) == p \in written \/ p \in dirs
Refused(p) == p[Len(p)] \in Hostile
Unpack(e) ==
  /\ status = "unpack" /\ ~Done(e[1])
  /\ Parent(e[1]) = <<>> \/ Parent(e[1]) \in dirs
  /\ IF Refused(e[1])
     THEN status' = "refused" /\ UNCHANGED <<tree, written, dirs>>
     ELSE /\ IF e[2] = "stream" THEN written' = written \cup {e[1]} /\ UNCHANGED dirs
                                ELSE dirs' = dirs \cup {e[1]} /\ UNCHANGED written
          /\ UNCHANGED <<tree, status>>
Finish == /\ status = "unpack" /\ \A e \in tree : Done(e[1])
          /\ status' = "done" /\ UNCHANGED <<tree, written, dirs>>
Next == \/ \E p \in Paths, k \in {"stream", "storage"} : Add(p, k)
        \/ Start \/ (\E e \in tree : Unpack(e)) \/ Finish

--------------------------------------------------------------------------------
Contained == \A p \in written \cup dirs : \A i \in 1 .. Len(p) : p[i] \notin Hostile
Mirrors == status = "done" => written = Leaves(tree) /\ dirs = PathsOf(tree) \ Leaves(tree)
OnlyListed == written \subseteq Leaves(tree) /\ dirs \subseteq PathsOf(tree)
Harmless == \A e \in tree : ~Refused(e[1])
RefusedIff == /\ status = "done" => Harmless
              /\ status = "refused" => ~Harmless
(* every listed path is found by walking, and only those *)
Addressable ==
  status = "build" => \A p \in PathsOf(tree) :
     \A i \in 1 .. Len(p) : p[i] \in Children(tree, SubSeq(p, 1, i - 1))

Emit == status = "unpack" /\ written = {} /\ dirs = {} =>
  PrintT("@@" \o ToJson([tree |-> tree, leaves |-> Leaves(tree), ok |-> Harmless,
     root |-> Children(tree, <<>>),
     asks |-> { <<p, IF Exists(tree, p) THEN 1 ELSE 0>> : p \in SeqsUpTo(Ask, 2) \ {<<>>} }]))
BuildOnly == status # "done" => (status = "unpack" => written = {} /\ dirs = {})
================================================================================
