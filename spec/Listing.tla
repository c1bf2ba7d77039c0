------------------------------ MODULE Listing ------------------------------
(* All small streams of records, read one by one as the code does, with what  *)
(* is selected of them.                                                       *)
EXTENDS ListingOps, Json
CONSTANTS Kinds, MaxRecs, MaxLv, MaxOdd
VARIABLES doc, done, open, names

Odd == { i \in 1 .. Len(doc) : doc[i].fill # "full" }
Init == doc = <<>> /\ done = FALSE /\ open = <<>> /\ names = <<>>
(* open: the records whose inside the next may lie in, with whether a body of a table was in *)
Inside(lv) == SelectSeq(open, LAMBDA o : o.lv < lv)
Read(lv, k, fill) ==
  LET up == Inside(lv)
      p == IF up = <<>> THEN [k |-> "", lv |-> -1, body |-> FALSE] ELSE up[Len(up)]
      name == IF k = "L" THEN ListName(p.k, p.body) ELSE PlainName(k)
      seen == IF up # <<>> /\ k = "B" THEN [up EXCEPT ![Len(up)].body = TRUE] ELSE up
  IN /\ names' = Append(names, name)
     /\ open' = Append(seen, [k |-> k, lv |-> lv, body |-> FALSE])
Add == /\ ~done /\ Len(doc) < MaxRecs
       /\ \E lv \in 0 .. (IF doc = <<>> THEN 0 ELSE IF doc[Len(doc)].lv < MaxLv THEN doc[Len(doc)].lv + 1 ELSE MaxLv), k \in Kinds, fill \in {"full", "extra", "cut"} :
            /\ (fill # "full" => Cardinality(Odd) < MaxOdd)
            /\ (k = "U" => fill # "cut")
            /\ doc' = Append(doc, [lv |-> lv, k |-> k, fill |-> fill])
            /\ Read(lv, k, fill)
       /\ UNCHANGED done
End == ~done /\ done' = TRUE /\ UNCHANGED <<doc, open, names>>
Next == Add \/ End
N == Named(doc)
Q(k, a) == [k |-> k, a |-> a]
All == Selected(N, Q("all", 0))
Tree(t) == Selected(N, Q("tree", t))
(* names given while reading are those the whole stream tells *)
Told == \A i \in 1 .. Len(doc) : names[i] = N[i].name
(* a tree alone tells them too *)
AloneToo == done => \A t \in 1 .. Len(Tops(N)) : LET a == Tops(N)[t] b == TreeEnd(N, t - 1) s == SubSeq(doc, a, b) IN
  \A i \in a .. b : NameOf(s, i - a + 1) = N[i].name
(* the trees are the stream, in order, each record in one *)
Partition == done => LET ts == [t \in 1 .. Len(Tops(N)) |-> [i \in 1 .. TreeEnd(N, t - 1) - Tops(N)[t] + 1 |-> Tops(N)[t] + i - 1]] IN
  FlattenSeq(ts) = [i \in 1 .. Len(doc) |-> i]
(* lists of the trees, up to the first that fails, make the list *)
RECURSIVE UpTo(_)
UpTo(t) == IF t = Len(Tops(N)) THEN [is |-> <<>>, failed |-> FALSE]
           ELSE IF Tree(t).failed THEN Tree(t) ELSE LET r == UpTo(t + 1) IN [is |-> Tree(t).is \o r.is, failed |-> r.failed]
Together == done => UpTo(0) = All
Each == done => \A i \in 0 .. Len(doc) + 1 : LET r == Selected(N, Q("nth", i)) IN
  IF i + 1 <= Len(All.is) THEN r = [is |-> <<i + 1>>, failed |-> FALSE] ELSE r = [is |-> <<>>, failed |-> All.failed]
F(model, tag, inc) == Selected(N, [k |-> "find", model |-> model, tag |-> tag, incomplete |-> inc])
(* every model is found under its name and under its tag, and only there *)
Classed == done => LET ns == { N[i].name : i \in 1 .. Len(N) } tg == { N[i].tag : i \in 1 .. Len(N) } IN
  /\ \A i \in 1 .. Len(All.is) : Cardinality({ m \in ns : \E j \in 1 .. Len(F(m, 0, FALSE).is) : F(m, 0, FALSE).is[j] = i }) = 1
  /\ \A i \in 1 .. Len(All.is) : Cardinality({ t \in tg : \E j \in 1 .. Len(F("", t, FALSE).is) : F("", t, FALSE).is[j] = i }) = 1
  /\ \A m \in ns, t \in tg : F(m, t, FALSE).failed = All.failed
  /\ F("", 0, FALSE) = All
Balanced == done => LET e == Events(N) IN \A x \in 1 .. Len(e) : e[x][1] = "E" => x > 1 /\ e[x - 1] = <<"S", e[x][2]>>
Emit == done => PrintT("@@" \o ToJson([doc |-> doc, named |-> N, tagnames |-> [i \in 1 .. Len(N) |-> TagName(N[i].tag)],
            sizes |-> [v \in 1 .. 3 |-> [i \in 1 .. Len(N) |-> SizeOf(N[i].name, N[i].fill, v = 3, v > 1)]],
            all |-> All, trees |-> [t \in 1 .. Len(Tops(N)) + 1 |-> Tree(t - 1)],
            nths |-> [i \in 1 .. Len(doc) + 1 |-> Selected(N, Q("nth", i - 1))],
            models |-> [m \in { N[i].name : i \in 1 .. Len(N) } |-> [a |-> F(m, 0, FALSE), b |-> F(m, 0, TRUE)]],
            tags |-> [i \in 1 .. Len(N) |-> [t |-> N[i].tag, a |-> F("", N[i].tag, FALSE), b |-> F("", N[i].tag, TRUE)]],
            odd |-> F("", 0, TRUE),
            events |-> Events(N)]))
=============================================================================
