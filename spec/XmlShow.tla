------------------------------- MODULE XmlShow -------------------------------
(* The XML element of a record: an element named after its type; every plain  *)
(* field an attribute (bit fields once in hexadecimal and once for each       *)
(* group; margins once for each side; colours, storage ids and characters in  *)
(* their written form); every structured field an element inside.             *)
EXTENDS RecordLayout

Depth(i) == Len(log[i].path)
IsKid(i, p) == /\ log[i].e \in {"leaf", "open"} /\ Depth(i) = Len(p) + 1 /\ SubSeq(log[i].path, 1, Len(p)) = p
               /\ log[i].k # "count"
(* indices of the parts of the structure with path p, laid out in i..j *)
KidsOf(p, i, j) == SelectSeq([k \in 1 .. j + 1 - i |-> i + k - 1], LAMBDA k : IsKid(k, p))
CloseOf(p, i) == CHOOSE j \in i .. Len(log) : log[j].e = "close" /\ log[j].path = p
NameAt(i) == log[i].path[Depth(i)]

IsMargin(i) == log[i].e = "open" /\ log[i].k = "struct" /\ log[i].n = "Margin"
IsNested(i) == log[i].e = "open" /\ log[i].k = "struct" /\ ~IsMargin(i)
IsArray(i) == log[i].e = "open" /\ log[i].k # "struct" /\ log[i].n = "struct"
IsColors(i) == log[i].e = "open" /\ log[i].k # "struct" /\ log[i].n = "color"
IsPlain(i) == ~IsNested(i) /\ ~IsArray(i) /\ ~IsColors(i)

At(name, how, leaf, lo, hi, enum) == [name |-> name, how |-> how, leaf |-> leaf, lo |-> lo, hi |-> hi, enum |-> enum]
Groups(f) == FlagTable[f].g
Inside(i) == KidsOf(log[i].path, i + 1, CloseOf(log[i].path, i))
Attributes(i) ==
  CASE log[i].e = "leaf" /\ log[i].k = "flags" ->
         << At(NameAt(i), "hexadecimal", <<i>>, 0, 2 * log[i].size, "") >> \o
         [ g \in 1 .. Len(Groups(log[i].n)) |-> At(Groups(log[i].n)[g][1], "bits", <<i>>, Groups(log[i].n)[g][2], Groups(log[i].n)[g][3], Groups(log[i].n)[g][4]) ]
    [] IsMargin(i) -> LET ks == Inside(i) IN [ k \in 1 .. Len(ks) |-> At(NameAt(i) \o "-" \o NameAt(ks[k]), "plain", <<ks[k]>>, 0, 0, "") ]
    [] log[i].e = "open" -> << At(NameAt(i), "list", Inside(i), 0, 0, "") >>
    [] OTHER -> << At(NameAt(i), IF log[i].k = "prim" /\ log[i].n \in {"color", "wchar", "binid"} THEN log[i].n ELSE "plain", <<i>>, 0, 0, "") >>
RECURSIVE FlatMap(_, _)
FlatMap(Op(_), s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN Op(s[1])
  ELSE LET h == Len(s) \div 2 IN FlatMap(Op, SubSeq(s, 1, h)) \o FlatMap(Op, SubSeq(s, h + 1, Len(s)))

Start(el, at, name) == [e |-> "start", el |-> el, at |-> at, named |-> name]
Stopped(el) == [e |-> "end", el |-> el, at |-> <<>>, named |-> ""]
RECURSIVE Element(_, _, _), Nested(_)
Element(el, name, kids) ==
  << Start(el, FlatMap(Attributes, SelectSeq(kids, IsPlain)), name) >>
  \o FlatMap(Nested, SelectSeq(kids, LAMBDA i : ~IsPlain(i))) \o << Stopped(el) >>
ItemElement(i) == Element(log[i].n, "", Inside(i))
ColorElement(name, i) == << Start(name, << At("hex", "color", <<i>>, 0, 0, ""), At("r", "bits", <<i>>, 0, 7, ""), At("g", "bits", <<i>>, 8, 15, ""),
                                           At("b", "bits", <<i>>, 16, 23, ""), At("alpha", "bits", <<i>>, 24, 31, "") >>, ""), Stopped(name) >>
Nested(i) ==
  IF IsNested(i) THEN Element(log[i].n, NameAt(i), Inside(i))
  ELSE IF IsArray(i) THEN << Start("Array", <<>>, NameAt(i)) >> \o FlatMap(ItemElement, Inside(i)) \o << Stopped("Array") >>
  ELSE FlatMap(LAMBDA k : ColorElement(NameAt(i), k), Inside(i))
Shown == Element(rec.name, "", KidsOf(<<>>, 1, Len(log)))

Shows == Done /\ Len(log) < 400     \* not the 255 columns
(* text, and the runs it is divided into, is shown as the text itself (Convert) *)
Elements == { i \in All : Records[i].name \notin {"ParaText", "ParaCharShape", "ParaLineSeg", "ParaRangeTag"} }
--------------------------------------------------------------------------------
RECURSIVE Balanced(_, _)
Balanced(evs, open) == IF evs = <<>> THEN open = <<>>
  ELSE IF evs[1].e = "start" THEN Balanced(Tail(evs), Append(open, evs[1].el))
  ELSE open # <<>> /\ open[Len(open)] = evs[1].el /\ Balanced(Tail(evs), SubSeq(open, 1, Len(open) - 1))
Nesting == Shows => Balanced(Shown, <<>>)
(* no attribute twice on an element *)
Names(ev) == { ev.at[a].name : a \in 1 .. Len(ev.at) }
Unique == Shows => LET s == Shown IN \A i \in 1 .. Len(s) : Cardinality(Names(s[i])) = Len(s[i].at)
(* every value laid out is shown somewhere: nothing is dropped *)
LeavesShown == LET s == Shown IN UNION { UNION { { s[i].at[a].leaf[k] : k \in 1 .. Len(s[i].at[a].leaf) } : a \in 1 .. Len(s[i].at) } : i \in 1 .. Len(s) }
NothingLost == Shows => { i \in 1 .. Len(log) : log[i].e = "leaf" /\ log[i].k # "count" } = LeavesShown
EmitShown == Shows => PrintT("@@" \o ToJson([name |-> rec.name, tag |-> rec.tag, ctx |-> rec.ctx, ver |-> ver, pcount |-> pcount,
                                       total |-> off, log |-> log, xml |-> Shown]))
=============================================================================
