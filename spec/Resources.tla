----------------------------- MODULE Resources ------------------------------
(* What a conversion holds while it is under way: the document, outputs and   *)
(* temporary files, and what is left of them when it ends, well or not.       *)
(*                                                                            *)
(* A conversion is a program of instructions.  "open" and "create" take       *)
(* something and promise to give it back; "leave" gives back what was taken   *)
(* last; "do" is work that may fail, as any instruction may.  A failure gives *)
(* everything back, in reverse order, and ends the conversion.  Conversions   *)
(* follow each other in one process and share compiled style sheets.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Modes, MaxRuns, MaxFailures,
          Reuse          \* the same converter is used for all of them

Do(x) == <<<<"do", x>>>>
Open(r) == <<<<"open", r>>>>
Create(r) == <<<<"create", r>>>>
Leave == <<<<"leave", "">>>>
(* the style sheet s applied to a temporary file *)
Style(s) == Open("input") \o Do("read") \o Leave \o Do("transform " \o s)
Checked(s) == Create("unchecked") \o Style(s) \o Do("write") \o Do("read") \o Do("validate") \o Do("write") \o Leave
Xml == Create("xml") \o Do("stream") \o Do("write")
Compile(s) == <<<<"compile", s>>>>
Insert(s) == Create(s) \o Checked(s) \o Open("input") \o Do("read") \o Do("write output") \o Leave \o Leave
Program(m) ==
  LET doc(p) == Open("document") \o Do("header") \o p \o Leave
      out(p) == Open("output") \o p \o Leave IN
  CASE m = "xml" -> doc(out(Do("stream") \o Do("write output")))
    [] m = "text" -> doc(out(Compile("plaintext") \o Xml \o Style("plaintext") \o Do("write output") \o Leave))
    [] m = "css" -> doc(out(Compile("hwp5css") \o Xml \o Style("hwp5css") \o Do("write output") \o Leave))
    [] m = "xhtml" -> doc(out(Compile("hwp5html") \o Xml \o Style("hwp5html") \o Do("write output") \o Leave))
    [] m = "html" -> doc(Xml \o Open("output") \o Compile("hwp5html") \o Style("hwp5html") \o Do("write output") \o Leave
                             \o Open("output") \o Compile("hwp5css") \o Style("hwp5css") \o Do("write output") \o Leave \o Leave
                         \o Do("stream") \o Open("output") \o Do("write output") \o Leave)
    [] m = "fodt" -> doc(out(Compile("document") \o Compile("rng") \o Xml \o Checked("document") \o Leave))
    [] m = "styles" -> doc(out(Compile("styles") \o Compile("rng") \o Xml \o Checked("styles") \o Leave))
    [] m = "content" -> doc(out(Compile("content") \o Compile("rng") \o Xml \o Checked("content") \o Leave))
    [] m = "odt" -> doc(out(Xml \o Compile("styles") \o Compile("rng") \o Insert("styles") \o Compile("content") \o Insert("content") \o Leave
                            \o Do("stream") \o Do("write output")))

VARIABLES mode, pc,
          held,         \* what was taken, in order: [what, opened, temporary]
          failing,      \* where it failed, or ""
          compiled,     \* style sheets the converter has compiled so far
          history       \* conversions that ended: [mode, failed]
vars == <<mode, pc, held, failing, compiled, history>>
Init == mode = "" /\ pc = 0 /\ held = <<>> /\ failing = "" /\ compiled = {} /\ history = <<>>
P == Program(mode)
Failures == Cardinality({ i \in 1 .. Len(history) : history[i].failed # "" })
Start(m) == /\ mode = "" /\ Len(history) < MaxRuns
            /\ mode' = m /\ pc' = 1 /\ failing' = "" /\ held' = <<>> /\ UNCHANGED <<compiled, history>>
Running == mode # "" /\ failing = "" /\ pc <= Len(P)
Last == held[Len(held)]
Front == SubSeq(held, 1, Len(held) - 1)
(* a temporary file is closed first, then removed *)
GiveBack == IF Last.opened /\ Last.temporary THEN Append(Front, [Last EXCEPT !.opened = FALSE]) ELSE Front
(* removing what was closed is part of leaving it *)
Skip == P[pc][1] = "compile" /\ P[pc][2] \in compiled
Step == /\ Running
        /\ LET i == P[pc] IN
           /\ held' = CASE i[1] = "open" -> Append(held, [what |-> i[2], opened |-> TRUE, temporary |-> FALSE])
                       [] i[1] = "create" -> Append(held, [what |-> i[2], opened |-> TRUE, temporary |-> TRUE])
                       [] i[1] = "leave" -> GiveBack
                       [] OTHER -> held
           /\ pc' = IF i[1] = "leave" /\ Last.opened /\ Last.temporary THEN pc ELSE pc + 1
           /\ compiled' = IF i[1] = "compile" THEN compiled \cup {i[2]} ELSE compiled
        /\ UNCHANGED <<mode, failing, history>>
Site(i) == CASE i[1] \in {"open", "compile"} -> i[1] \o " " \o i[2] [] i[1] = "create" -> "create" [] i[1] = "leave" -> "leave " \o Last.what [] OTHER -> i[2]
(* what is compiled needs no compiling; giving back a temporary file or an input does not fail *)
MayFail(i) == /\ ~Skip
              /\ i[1] = "leave" => Last.what \in {"output", "document"}
Fail == /\ Running /\ Failures < MaxFailures /\ MayFail(P[pc])
        /\ failing' = Site(P[pc])
        /\ held' = IF P[pc][1] = "leave" THEN GiveBack ELSE held
        /\ UNCHANGED <<mode, pc, compiled, history>>
Unwind == /\ failing # "" /\ held # <<>> /\ held' = GiveBack /\ UNCHANGED <<mode, pc, failing, compiled, history>>
End == /\ mode # "" /\ held = <<>> /\ (failing # "" \/ pc > Len(P))
       /\ history' = Append(history, [mode |-> mode, failed |-> failing])
       /\ mode' = "" /\ pc' = 0 /\ failing' = "" /\ held' = <<>>
       /\ compiled' = IF Reuse THEN compiled ELSE {}
Next == (\E m \in Modes : Start(m)) \/ Step \/ Fail \/ Unwind \/ End

--------------------------------------------------------------------------------
(* nothing is held between conversions *)
Released == mode = "" => held = <<>>
(* every program gives back what it takes *)
Balanced == (mode # "" /\ failing = "" /\ pc > Len(P)) => held = <<>>
(* while a temporary file exists the document is open around it *)
Enclosed == (\E i \in 1 .. Len(held) : held[i].temporary) => held[1].what = "document"
NoTwice == \A i, j \in 1 .. Len(held) : (i # j /\ held[i].what = held[j].what) => held[i].what \in {"input", "unchecked"}
(* only what is on top can be closed and not yet removed *)
Order == \A i \in 1 .. Len(held) : ~held[i].opened => i = Len(held)
(* a conversion that failed leaves no style sheet behind that it did not compile *)
Compiled == mode = "" /\ ~Reuse => compiled = {}
Emit == (mode = "" /\ Len(history) = MaxRuns) => PrintT("@@" \o ToJson([runs |-> history]))
=============================================================================
