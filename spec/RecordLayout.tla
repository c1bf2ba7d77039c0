---------------------------- MODULE RecordLayout ----------------------------
(* The payload of a record, laid out from its entry in HwpLayout for a format *)
(* version: the fields in the documented order, those of a later version and  *)
(* those whose condition fails left out.  A stack machine, as FieldLayout; it *)
(* chooses the values that later fields depend on, the rest is left open.     *)
EXTENDS HwpLayout, Json

CONSTANTS Which,        \* indices into Records
          Counts, StrLens, ParentCounts

VARIABLES ri,       \* the record type, as index into Records
          ver, pcount, stack, off, log, env
vars == <<ri, ver, pcount, stack, off, log, env>>

RECURSIVE GatesOf(_), GatesIn(_)
GatesIn(t) == CASE t.k = "struct" -> GatesOf(t.fs)
                [] t.k \in {"arr", "narr", "xarr"} -> GatesIn(t.t)
                [] t.k = "sel" -> UNION { GatesIn(t.alts[i][2]) : i \in 1 .. Len(t.alts) }
                [] OTHER -> {}
GatesOf(fs) == UNION { {fs[i].ver} \cup GatesIn(fs[i].t) : i \in 1 .. Len(fs) } \ {0}
(* below 5.0.5.0 nothing later is known; every gate and the version before it *)
VersionsOf(fs) == {5000000, 5000506, 5010000} \cup GatesOf(fs) \cup { v - 1 : v \in GatesOf(fs) }

AType(path, t, top) == [op |-> "type", path |-> path, t |-> t, fs |-> <<>>, i |-> 0, n |-> 0]
AStruct(path, fs) == [op |-> "fields", path |-> path, t |-> UINT8, fs |-> fs, i |-> 1, n |-> 0]
AItems(path, t, n) == [op |-> "items", path |-> path, t |-> t, fs |-> <<>>, i |-> 1, n |-> n]

FieldNamesWithVals(fs) == { i \in 1 .. Len(fs) : fs[i].vals # {} }
rec == Records[ri]
Init == /\ ri \in Which
        /\ ver \in VersionsOf(rec.fs)
        /\ pcount \in IF rec.ctx = "para" THEN ParentCounts ELSE {0}
        /\ stack = << AStruct(<<>>, rec.fs) >>
        /\ off = 0 /\ log = <<>> /\ env = << >>

Top == stack[Len(stack)]
Rest == SubSeq(stack, 1, Len(stack) - 1)
Ev(e, path, k, n, size, val) == [e |-> e, path |-> path, k |-> k, n |-> n, off |-> off, size |-> size, val |-> val]
ItemName(t) == IF t.k = "struct" THEN "struct" ELSE IF t.k = "prim" THEN t.n ELSE t.k
Lay(path, k, n, size, val) == log' = Append(log, Ev("leaf", path, k, n, size, val)) /\ off' = off + size

Pow2(n) == 2 ^ n
BitsOf(v, lo, hi) == (v \div Pow2(lo)) % Pow2(hi - lo + 1)
(* fields that were chosen: a sequence of <<name, value>> *)
HasEnv(f) == \E i \in 1 .. Len(env) : env[i][1] = f
EnvOf(f) == env[CHOOSE i \in 1 .. Len(env) : env[i][1] = f][2]
Max(a, b) == IF a > b THEN a ELSE b
RefValue(r) == IF r.parent THEN pcount ELSE Max(0, BitsOf(EnvOf(r.f), r.lo, r.hi) + r.plus)
CondHolds(c) == CASE c.c = "bits" -> BitsOf(EnvOf(c.f), c.lo, c.hi) = c.v
                  [] c.c = "is" -> EnvOf("chid") = c.v
                  [] c.c = "parent" -> rec.ctx = c.f
Gate(f) == /\ ver >= f.ver
           /\ \A i \in 1 .. Len(f.cond) : \A j \in 1 .. i - 1 : CondHolds(f.cond[j])
           /\ \A i \in 1 .. Len(f.cond) : CondHolds(f.cond[i])

FieldStep ==
  /\ stack # <<>> /\ Top.op = "fields"
  /\ UNCHANGED <<ri, ver, pcount>>
  /\ IF Top.i > Len(Top.fs)
     THEN stack' = Rest /\ log' = Append(log, Ev("close", Top.path, "struct", "", 0, -1)) /\ UNCHANGED <<off, env>>
     ELSE LET f == Top.fs[Top.i]
              p == Append(Top.path, f.name)
              more == Append(Rest, [Top EXCEPT !.i = Top.i + 1])
          IN IF ~Gate(f) THEN stack' = more /\ UNCHANGED <<off, log, env>>
             ELSE IF f.vals # {}
             THEN \E v \in f.vals : /\ Lay(p, f.t.k, f.t.n, f.t.size, v)
                                    /\ env' = Append(env, <<f.name, v>>) /\ stack' = more
             ELSE stack' = Append(more, AType(p, f.t, 0)) /\ UNCHANGED <<off, log, env>>

TypeStep ==
  /\ stack # <<>> /\ Top.op = "type"
  /\ UNCHANGED <<ri, ver, pcount, env>>
  /\ LET t == Top.t p == Top.path IN
     CASE t.k \in {"prim", "flags"} -> Lay(p, t.k, t.n, t.size, -1) /\ stack' = Rest
       [] t.k = "str" -> \E n \in StrLens : Lay(p, "str", "", 2 + 2 * n, n) /\ stack' = Rest
       [] t.k = "text" -> \E n \in StrLens : Lay(p, "text", "", 2 * n, n) /\ stack' = Rest
       [] t.k = "struct" -> /\ stack' = Append(Rest, AStruct(p, t.fs))
                            /\ log' = Append(log, Ev("open", p, "struct", t.n, 0, -1)) /\ off' = off
       [] t.k = "sel" -> /\ UNCHANGED <<off, log>>
                         /\ LET m == { j \in 1 .. Len(t.alts) : t.alts[j][1] = RefValue(t.ref) } IN
                            stack' = IF m = {} THEN Rest ELSE Append(Rest, AType(p, t.alts[CHOOSE j \in m : TRUE][2], 0))
       [] t.k = "arr" -> /\ stack' = Append(Rest, AItems(p, t.t, t.n))
                         /\ log' = Append(log, Ev("open", p, "arr", ItemName(t.t), 0, t.n)) /\ off' = off
       [] t.k = "xarr" -> /\ stack' = Append(Rest, AItems(p, t.t, RefValue(t.ref)))
                          /\ log' = Append(log, Ev("open", p, "xarr", ItemName(t.t), 0, RefValue(t.ref))) /\ off' = off
       [] t.k = "narr" -> \E n \in Counts :
                            /\ stack' = Append(Rest, AItems(p, t.t, n))
                            /\ log' = log \o << Ev("leaf", Append(p, "#"), "count", "u", t.n, n),
                                                [Ev("open", p, "narr", ItemName(t.t), 0, n) EXCEPT !.off = off + t.n] >>
                            /\ off' = off + t.n

ItemStep ==
  /\ stack # <<>> /\ Top.op = "items"
  /\ UNCHANGED <<ri, ver, pcount, off, env>>
  /\ IF Top.i > Top.n
     THEN stack' = Rest /\ log' = Append(log, Ev("close", Top.path, "items", "", 0, -1))
     ELSE /\ stack' = Rest \o << [Top EXCEPT !.i = Top.i + 1], AType(Append(Top.path, ToString(Top.i)), Top.t, 0) >>
          /\ log' = log

Next == FieldStep \/ TypeStep \/ ItemStep
Stop == FALSE /\ UNCHANGED vars
First == {1}
All == 1 .. Len(Records)
Done == stack = <<>>

--------------------------------------------------------------------------------
Leaves == SelectSeq(log, LAMBDA e : e.e = "leaf")
Contiguous == Done =>
  LET ls == Leaves IN
  /\ Len(ls) > 0 => ls[1].off = 0
  /\ \A i \in 2 .. Len(ls) : ls[i].off = ls[i - 1].off + ls[i - 1].size
  /\ off = IF ls = <<>> THEN 0 ELSE ls[Len(ls)].off + ls[Len(ls)].size
(* which top-level fields are there depends on nothing but version, and what they refer to *)
TopFields == { log[i].path[1] : i \in { j \in 1 .. Len(log) : log[j].path # <<>> } }
NewerAbsent == Done => \A i \in 1 .. Len(rec.fs) : rec.fs[i].ver > ver => rec.fs[i].name \notin TopFields
OlderPresent == Done => \A i \in 1 .. Len(rec.fs) :
                   (rec.fs[i].ver <= ver /\ rec.fs[i].cond = <<>> /\ rec.fs[i].t.k # "sel") => rec.fs[i].name \in TopFields
PosOf(n) == CHOOSE i \in 1 .. Len(rec.fs) : rec.fs[i].name = n
FieldOrder == Done =>
  LET ps == [a \in 1 .. Len(log) |-> IF log[a].path = <<>> THEN 0 ELSE PosOf(log[a].path[1])]
  IN \A a \in 2 .. Len(log) - 1 : ps[a - 1] <= ps[a]
Emit == Done => PrintT("@@" \o ToJson([name |-> rec.name, tag |-> rec.tag, ctx |-> rec.ctx, ver |-> ver, pcount |-> pcount,
                                       total |-> off, log |-> log]))
EmitTables == PrintT("@@" \o ToJson([flags |-> FlagTable, enums |-> EnumTable, chids |-> Chids, nrec |-> Len(Records),
   recs |-> [i \in 1 .. Len(Records) |-> [name |-> Records[i].name, tag |-> Records[i].tag, ctx |-> Records[i].ctx,
              codes |-> IF Records[i].tag = 71 THEN { Chids[c] : c \in Records[i].fs[1].vals } ELSE {}]]]))
=============================================================================
