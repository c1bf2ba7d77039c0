---------------------------- MODULE FieldLayout ----------------------------
(* How a payload is laid out by the declaration of its type.                 *)
(*                                                                           *)
(* A declaration is a structure: a sequence of fields [t, ver, cond], the     *)
(* first of which ("n") is the one that gates and counts refer to.            *)
(*   ver  = 0 : in every version;  ver = v : only from version v on           *)
(*   cond = 9 : unconditional;     cond = c: only when n = c                  *)
(* Types:  [k |-> "u", n]      integer of n bytes                             *)
(*         [k |-> "flags", n]  bit word of n bytes; n of the structure is a    *)
(*                             bit group of it when it comes first            *)
(*         [k |-> "str"]       16-bit length, then that many units            *)
(*         [k |-> "arr", n, t] n items      [k |-> "xarr", t]  "n" items       *)
(*         [k |-> "narr", n, t] count of n bytes, then that many items         *)
(*         [k |-> "sel", alts] the type selected by n, or nothing              *)
(*         [k |-> "struct", fs]                                               *)
(*                                                                           *)
(* The state is a stack machine: open structures and arrays below, the next   *)
(* thing to lay out on top.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS ControlKinds,   \* kinds of the first field: subset of {"u", "flags"}
          TypesA, TypesB, \* indices into Templates for the second and third field
          GatesA, GatesB, \* indices into Gates
          Versions, CtlValues, Counts, StrLens

U(n) == [k |-> "u", n |-> n]
F(t) == [t |-> t, ver |-> 0, cond |-> 9]
Ctl == F(U(1))
Inner == [k |-> "struct", fs |-> <<Ctl, [t |-> U(2), ver |-> 0, cond |-> 1], [t |-> U(1), ver |-> 2, cond |-> 9]>>]
Plain == [k |-> "struct", fs |-> <<Ctl, F([k |-> "str"])>>]
Deep == [k |-> "struct", fs |-> <<Ctl, [t |-> [k |-> "xarr", t |-> Inner], ver |-> 2, cond |-> 9], F(U(1))>>]
Templates == <<
  U(1), U(2), U(4), [k |-> "flags", n |-> 2], [k |-> "str"],
  [k |-> "arr", n |-> 2, t |-> U(2)], [k |-> "narr", n |-> 2, t |-> U(1)],
  [k |-> "xarr", t |-> U(2)],
  [k |-> "sel", alts |-> << [when |-> 0, t |-> U(1)], [when |-> 1, t |-> Inner] >>],
  Inner, [k |-> "xarr", t |-> Inner], [k |-> "arr", n |-> 2, t |-> Plain],
  [k |-> "narr", n |-> 1, t |-> Inner], [k |-> "narr", n |-> 2, t |-> [k |-> "flags", n |-> 4]], Deep,
  [k |-> "arr", n |-> 0, t |-> U(4)], [k |-> "xarr", t |-> [k |-> "str"]] >>
Gates == << [ver |-> 0, cond |-> 9], [ver |-> 2, cond |-> 9], [ver |-> 0, cond |-> 1], [ver |-> 3, cond |-> 0] >>
Field(t, g) == [t |-> Templates[t], ver |-> Gates[g].ver, cond |-> Gates[g].cond]
Ctrl(kind) == F(IF kind = "u" THEN U(1) ELSE [k |-> "flags", n |-> 2])

VARIABLES decl,    \* the fields of the type
          ver,     \* version of the document, 0 = not known (every field is there)
          stack,   \* tasks, the next one last
          off,     \* bytes laid out
          log      \* what has been laid out
vars == <<decl, ver, stack, off, log>>

Names == <<"n", "a", "b", "c">>
AType(path, t, ctl) == [op |-> "type", path |-> path, t |-> t, ctl |-> ctl, fs |-> <<>>, i |-> 0, n |-> 0]
AStruct(path, fs) == [op |-> "fields", path |-> path, t |-> U(1), ctl |-> 0, fs |-> fs, i |-> 1, n |-> 0]
AItems(path, t, ctl, n) == [op |-> "items", path |-> path, t |-> t, ctl |-> ctl, fs |-> <<>>, i |-> 1, n |-> n]

Init == /\ decl \in { << Ctrl(c), Field(a, ga), Field(b, gb), F(U(1)) >> :
                        c \in ControlKinds, a \in TypesA, ga \in GatesA, b \in TypesB, gb \in GatesB }
        /\ ver \in Versions
        /\ stack = << AStruct(<<>>, decl) >> /\ off = 0
        /\ log = << [e |-> "open", k |-> "struct", path |-> <<>>, off |-> 0, size |-> 0, val |-> -1] >>

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Leaf(path, k, size, val) == [e |-> "leaf", k |-> k, path |-> path, off |-> off, size |-> size, val |-> val]
OpenEv(path, k) == [e |-> "open", k |-> k, path |-> path, off |-> off, size |-> 0, val |-> -1]
CloseEv(path, k) == [e |-> "close", k |-> k, path |-> path, off |-> off, size |-> 0, val |-> -1]
Lay(path, k, size, val) == /\ log' = Append(log, Leaf(path, k, size, val)) /\ off' = off + size

Gate(f, ctl) == (ver = 0 \/ f.ver = 0 \/ ver >= f.ver) /\ (f.cond = 9 \/ f.cond = ctl)

FieldStep ==
  /\ stack # <<>> /\ Top.op = "fields"
  /\ UNCHANGED <<decl, ver>>
  /\ IF Top.i > Len(Top.fs)
     THEN /\ stack' = Rest /\ log' = Append(log, CloseEv(Top.path, "struct")) /\ off' = off
     ELSE LET f == Top.fs[Top.i]
              p == Append(Top.path, Names[Top.i])
          IN IF Top.i = 1
             THEN \E v \in CtlValues :
                    /\ Lay(p, f.t.k, f.t.n, v)
                    /\ stack' = Append(Rest, [Top EXCEPT !.i = 2, !.ctl = v])
             ELSE /\ UNCHANGED <<off, log>>
                  /\ IF Gate(f, Top.ctl)
                     THEN stack' = Rest \o << [Top EXCEPT !.i = Top.i + 1], AType(p, f.t, Top.ctl) >>
                     ELSE stack' = Append(Rest, [Top EXCEPT !.i = Top.i + 1])

TypeStep ==
  /\ stack # <<>> /\ Top.op = "type"
  /\ UNCHANGED <<decl, ver>>
  /\ LET t == Top.t p == Top.path IN
     CASE t.k \in {"u", "flags"} -> Lay(p, t.k, t.n, -1) /\ stack' = Rest
       [] t.k = "str" -> \E n \in StrLens : Lay(p, "str", 2 + 2 * n, n) /\ stack' = Rest
       [] t.k = "struct" -> /\ stack' = Append(Rest, AStruct(p, t.fs))
                            /\ log' = Append(log, OpenEv(p, "struct")) /\ off' = off
       [] t.k = "sel" -> /\ UNCHANGED <<off, log>>
                         /\ LET m == { j \in 1 .. Len(t.alts) : t.alts[j].when = Top.ctl } IN
                            stack' = IF m = {} THEN Rest
                                     ELSE Append(Rest, AType(p, t.alts[CHOOSE j \in m : TRUE].t, Top.ctl))
       [] t.k = "arr" -> /\ stack' = Append(Rest, AItems(p, t.t, Top.ctl, t.n))
                         /\ log' = Append(log, OpenEv(p, "arr")) /\ off' = off
       [] t.k = "xarr" -> /\ stack' = Append(Rest, AItems(p, t.t, Top.ctl, Top.ctl))
                          /\ log' = Append(log, OpenEv(p, "xarr")) /\ off' = off
       [] t.k = "narr" -> \E n \in Counts :
                            /\ stack' = Append(Rest, AItems(p, t.t, Top.ctl, n))
                            /\ log' = log \o << Leaf(Append(p, "#"), "count", t.n, n),
                                                [OpenEv(p, "narr") EXCEPT !.off = off + t.n] >>
                            /\ off' = off + t.n

ItemStep ==
  /\ stack # <<>> /\ Top.op = "items"
  /\ UNCHANGED <<decl, ver, off>>
  /\ IF Top.i > Top.n
     THEN stack' = Rest /\ log' = Append(log, CloseEv(Top.path, "items"))
     ELSE /\ stack' = Rest \o << [Top EXCEPT !.i = Top.i + 1], AType(Append(Top.path, ToString(Top.i)), Top.t, Top.ctl) >>
          /\ log' = log

Next == FieldStep \/ TypeStep \/ ItemStep
Done == stack = <<>>

--------------------------------------------------------------------------------
Leaves == SelectSeq(log, LAMBDA e : e.e = "leaf")
(* contiguous offsets, nothing left out, nothing twice *)
Contiguous ==
  LET ls == Leaves IN
  /\ Len(ls) > 0 => ls[1].off = 0
  /\ \A i \in 2 .. Len(ls) : ls[i].off = ls[i - 1].off + ls[i - 1].size
  /\ off = IF ls = <<>> THEN 0 ELSE ls[Len(ls)].off + ls[Len(ls)].size
Once == \A i, j \in 1 .. Len(log) : (log[i].e = "leaf" /\ log[j].e = "leaf" /\ log[i].path = log[j].path) => i = j
(* the number of a field that a payload of c bytes ends in *)
FailAt(c) == CHOOSE i \in 1 .. Len(Leaves) : Leaves[i].off <= c /\ c < Leaves[i].off + Leaves[i].size
Fails == [c \in 1 .. off |-> FailAt(c - 1)]
CutInOne == Done => \A c \in 0 .. off - 1 :
               Cardinality({ i \in 1 .. Len(Leaves) : Leaves[i].off <= c /\ c < Leaves[i].off + Leaves[i].size }) = 1
(* a gated field is there exactly when its gate holds *)
TopCtl == LET c == { i \in 1 .. Len(log) : log[i].path = <<"n">> } IN log[CHOOSE i \in c : TRUE].val
HasPath(p) == \E i \in 1 .. Len(log) : Len(log[i].path) >= 1 /\ log[i].path[1] = p
Gated == Done => \A i \in 2 .. 4 :
            HasPath(Names[i]) <=> /\ Gate(decl[i], TopCtl)
                                  /\ decl[i].t.k = "sel" => \E j \in 1 .. Len(decl[i].t.alts) : decl[i].t.alts[j].when = TopCtl
Balanced == Done => Cardinality({ i \in 1 .. Len(log) : log[i].e = "open" }) = Cardinality({ i \in 1 .. Len(log) : log[i].e = "close" })
Emit == Done => PrintT("@@" \o ToJson([decl |-> decl, ver |-> ver, log |-> log, total |-> off, fails |-> Fails]))
=============================================================================
