--------------------------------- MODULE Ids ---------------------------------
(* Ids of paragraphs, tables, drawing objects and shapes in the XML of a      *)
(* document: every kind is numbered from zero, in document order, over all    *)
(* its sections.  Conversions of one document may be under way at the same    *)
(* time, be given up, and be repeated.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Parts,        \* what sections are made of
          MaxParts, MaxSections, MaxEvents, Conversions

(* elements of a part, in document order *)
Elements(p) == CASE p = "paragraph" -> <<"P">>
                 [] p = "table" -> <<"P", "T", "P">>
                 [] p = "drawing" -> <<"P", "G", "S", "P">>
                 [] p = "two shapes" -> <<"P", "G", "S", "S">>
                 [] p = "inner table" -> <<"P", "T", "P", "T", "P">>
                 [] p = "table in footnote" -> <<"P", "P", "T", "P">>
RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE Elements(ps[1]) \o Flat(Tail(ps))
RECURSIVE AllOf(_)
AllOf(d) == IF d = <<>> THEN <<>> ELSE Flat(d[1]) \o AllOf(Tail(d))
Sequences(S, n) == UNION { [1 .. i -> S] : i \in 0 .. n }
Kind == {"P", "T", "G", "S"}

VARIABLES doc,          \* sections, each a sequence of parts
          at,           \* per conversion: elements delivered
          next,         \* per conversion: the next id of every kind
          log,          \* per conversion: ids delivered
          done,         \* ids of completed conversions
          schedule
vars == <<doc, at, next, log, done, schedule>>
Zero == [k \in Kind |-> 0]
Init == /\ doc \in { d \in Sequences(Sequences(Parts, MaxParts), MaxSections) : d # <<>> /\ Len(AllOf(d)) <= MaxEvents }
        /\ at = [c \in Conversions |-> 0] /\ next = [c \in Conversions |-> Zero] /\ log = [c \in Conversions |-> <<>>]
        /\ done = <<>> /\ schedule = <<>>
Els == AllOf(doc)
Rounds == Cardinality(Conversions)
Deliver(c) == /\ at[c] < Len(Els) /\ Len(done) < Rounds
              /\ LET k == Els[at[c] + 1] IN
                 /\ log' = [log EXCEPT ![c] = Append(@, <<k, next[c][k]>>)]
                 /\ next' = [next EXCEPT ![c][k] = @ + 1]
              /\ at' = [at EXCEPT ![c] = @ + 1]
              /\ schedule' = Append(schedule, <<"next", c>>)
              /\ UNCHANGED <<doc, done>>
Finish(c) == /\ at[c] = Len(Els) /\ Len(done) < Rounds
             /\ done' = Append(done, log[c]) /\ at' = [at EXCEPT ![c] = 0] /\ next' = [next EXCEPT ![c] = Zero] /\ log' = [log EXCEPT ![c] = <<>>]
             /\ schedule' = Append(schedule, <<"finish", c>>) /\ UNCHANGED doc
(* a conversion may be given up half-way, once *)
GiveUp(c) == /\ at[c] > 0 /\ Len(done) < Rounds /\ \A i \in 1 .. Len(schedule) : schedule[i][1] # "give up"
             /\ at' = [at EXCEPT ![c] = 0] /\ next' = [next EXCEPT ![c] = Zero] /\ log' = [log EXCEPT ![c] = <<>>]
             /\ schedule' = Append(schedule, <<"give up", c>>) /\ UNCHANGED <<doc, done>>
Next == \E c \in Conversions : Deliver(c) \/ Finish(c) \/ GiveUp(c)
View == <<doc, at, next, log, done, \E i \in 1 .. Len(schedule) : schedule[i][1] = "give up">>

--------------------------------------------------------------------------------
OfKind(l, k) == SelectSeq(l, LAMBDA e : e[1] = k)
Consecutive(l) == \A k \in Kind : LET s == OfKind(l, k) IN \A i \in 1 .. Len(s) : s[i][2] = i - 1
Unique(l) == \A i, j \in 1 .. Len(l) : i # j => l[i] # l[j]
Numbered == \A c \in Conversions : Consecutive(log[c]) /\ Unique(log[c])
Repeatable == /\ \A i, j \in 1 .. Len(done) : done[i] = done[j]
              /\ \A i \in 1 .. Len(done) : \A c \in Conversions : SubSeq(done[i], 1, at[c]) = log[c]
Covered == \A i \in 1 .. Len(done) : Len(done[i]) = Len(Els)
Emit == Len(done) = Rounds => PrintT("@@" \o ToJson([doc |-> doc, schedule |-> schedule, ids |-> done[1]]))
=============================================================================
