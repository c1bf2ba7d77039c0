------------------------------- MODULE PropSet -------------------------------
(* A property set is declared, laid out in bytes by a writer, in any order    *)
(* and with any gaps, and read again by a reader which takes the code page    *)
(* and the dictionary first, then one property at a time.                     *)
EXTENDS OleProps, TLC, Json

CONSTANTS Catalog,      \* properties to choose from
          MaxProps, Dicts, Gaps, Sets

I(n) == [t |-> I4, v |-> n]
S(u) == [t |-> WIDE, v |-> u]
T(l) == [t |-> TIME, v |-> l]
X(c, bytes) == [t |-> c, v |-> bytes]
Prop(id, x, flags) == [id |-> id, x |-> x, flags |-> flags]

CatalogA == { Prop(<<0, 2>>, S(<<65>>), 0), Prop(<<0, 11>>, T(<<0, 0, 0, 0>>), 0), Prop(<<0, 14>>, I(<<65535, 65535>>), 0),
              Prop(CODEPAGE, X(2, <<176, 4, 0, 0>>), 0), Prop(<<0, 77>>, X(4107, Zeros(8)), 0) }
CatalogB == { Prop(<<0, 2>>, S(<<>>), 0), Prop(<<0, 20>>, S(<<44032, 10>>), 0), Prop(<<0, 12>>, T(<<32768, 54919, 39133, 443>>), 0),
              Prop(<<0, 21>>, I(<<0, 7>>), 21845), Prop(LOCALE, I(<<0, 1042>>), 0), Prop(BEHAVIOR, I(<<32768, 0>>), 0),
              Prop(CODEPAGE, I(<<0, 1200>>), 0), Prop(<<0, 77>>, S(<<55357, 56832>>), 0), Prop(<<0, 4>>, X(0, <<>>), 0),
              Prop(<<0, 17>>, X(71, <<255, 255, 255, 255>>), 0), Prop(<<1, 2>>, I(<<0, 1>>), 0), Prop(<<0, 13>>, T(<<65535, 65535, 65535, 32767>>), 0) }
Entry(id, name) == [id |-> id, name |-> name]
NoDict == <<>>
DictA == { <<"none", <<>>>>, <<"has", <<>>>>, <<"has", << Entry(<<0, 77>>, <<110, 49>>), Entry(<<0, 2>>, <<116>>) >> >> }
DictB == { <<"none", <<>>>>, <<"has", << Entry(<<0, 14>>, <<112, 58>>), Entry(<<0, 77>>, <<>>), Entry(<<1, 2>>, <<120, 121, 122>>) >> >> }
GapsA == {0, 4}
GapsB == {0, 3}
OneSet == { <<"HWP">> , <<"other">> }
TwoSets == { <<"HWP", "other">>, <<"other", "HWP">> }

OTHER_FMTID == <<2, 213, 205, 213, 156, 46, 27, 16, 147, 151, 8, 0, 43, 44, 249, 174>>

VARIABLES phase, decl, dict, laid, gap, sets, bytes, first,
          todo, known, rdict, reported
vars == <<phase, decl, dict, laid, gap, sets, bytes, first, todo, known, rdict, reported>>

Ids == { decl[i].id : i \in 1 .. Len(decl) }
(* the things to lay out: numbers of declared properties; 0 is the dictionary, -1 a gap *)
Things == 1 .. Len(decl) \cup (IF dict[1] = "has" THEN {0} ELSE {})
Placed == { laid[i] : i \in 1 .. Len(laid) } \ {-1}

Init == /\ phase = "declare" /\ decl = <<>> /\ dict \in Dicts /\ laid = <<>> /\ gap \in Gaps /\ sets \in Sets /\ bytes = <<>> /\ first \in {TRUE, FALSE}
        /\ (first => dict[1] = "has") /\ todo = {} /\ known = FALSE /\ rdict = <<>> /\ reported = {}
Declare == /\ phase = "declare" /\ Len(decl) < MaxProps
           /\ \E p \in Catalog : p.id \notin Ids /\ decl' = Append(decl, p)
           /\ UNCHANGED <<phase, dict, laid, gap, sets, bytes, first, todo, known, rdict, reported>>
StartLay == /\ phase = "declare" /\ decl # <<>> /\ phase' = "lay"
            /\ UNCHANGED <<decl, dict, laid, gap, sets, bytes, first, todo, known, rdict, reported>>
Lay == /\ phase = "lay" /\ \E n \in Things \ Placed : laid' = Append(laid, n)
       /\ UNCHANGED <<phase, decl, dict, gap, sets, bytes, first, todo, known, rdict, reported>>

(* --- the writer --- *)
Body(n) == IF n = 0 THEN EncDict(dict[2]) ELSE EncTyped(decl[n].x, decl[n].flags)
Count == Len(decl) + (IF dict[1] = "has" THEN 1 ELSE 0)
Start == 8 + 8 * Count
At == LET A[i \in 0 .. Len(laid)] == IF i = 0 THEN Start ELSE A[i - 1] + gap + Len(Body(laid[i])) IN A
OffsetOf(n) == LET i == CHOOSE i \in 1 .. Len(laid) : laid[i] = n IN At[i - 1] + gap
Row(n) == (IF n = 0 THEN E32(DICTIONARY) ELSE E32(decl[n].id)) \o ES(OffsetOf(n))
Table == LET rows == Flatten([i \in 1 .. Len(decl) |-> Row(i)]) IN
         IF dict[1] = "none" THEN rows ELSE IF first THEN Row(0) \o rows ELSE rows \o Row(0)
Section == LET body == Flatten([i \in 1 .. Len(laid) |-> [j \in 1 .. gap |-> 170] \o Body(laid[i])]) IN
           ES(Start + Len(body)) \o ES(Count) \o Table \o body
(* the other set of a stream with two: one integer, the title, not a string *)
Small2 == ES(24) \o ES(1) \o E32(<<0, 2>>) \o ES(16) \o E32(<<0, I4>>) \o E32(<<0, 99>>)
Fmt(s) == IF s = "HWP" THEN HWP ELSE OTHER_FMTID
Header == E16(65534) \o E16(0) \o E32(<<2, 261>>) \o HWP \o ES(Len(sets))
Encode == /\ phase = "lay" /\ Placed = Things
          /\ LET base == 28 + 20 * Len(sets)
             IN bytes' = IF Len(sets) = 1 THEN Header \o Fmt(sets[1]) \o ES(base) \o Section
                         ELSE Header \o Fmt(sets[1]) \o ES(base + 24) \o Fmt(sets[2]) \o ES(base) \o Small2 \o Section
          /\ phase' = "open" /\ UNCHANGED <<decl, dict, laid, gap, sets, first, todo, known, rdict, reported>>

(* --- the reader, of the first set --- *)
Base == SetOffset(bytes, 0)
Open == /\ phase = "open"
        /\ LET ds == Declared(bytes, Base) IN todo' = { ds[i] : i \in 1 .. Len(ds) }
        /\ known' = (FmtId(bytes, 0) = HWP) /\ phase' = "codepage"
        /\ UNCHANGED <<decl, dict, laid, gap, sets, bytes, first, rdict, reported>>
Take(d) == reported' = reported \cup { Report(bytes, Base, known, rdict, d) } /\ todo' = todo \ {d}
Special(id, now, then) ==
  /\ phase = now /\ phase' = then
  /\ IF \E d \in todo : d.id = id
     THEN \E d \in todo : d.id = id /\ Take(d) /\ rdict' = (IF id = DICTIONARY THEN DecDict(bytes, Base + d.offset) ELSE rdict)
     ELSE UNCHANGED <<todo, reported, rdict>>
  /\ UNCHANGED <<decl, dict, laid, gap, sets, bytes, first, known>>
Read == /\ phase = "rest" /\ todo # {}
        /\ \E d \in todo : Take(d)
        /\ UNCHANGED <<phase, decl, dict, laid, gap, sets, bytes, first, known, rdict>>
Finish == /\ phase = "rest" /\ todo = {} /\ phase' = "done"
          /\ UNCHANGED <<decl, dict, laid, gap, sets, bytes, first, todo, known, rdict, reported>>
Next == Declare \/ StartLay \/ Lay \/ Encode \/ Open \/ Special(CODEPAGE, "codepage", "dictionary") \/ Special(DICTIONARY, "dictionary", "rest") \/ Read \/ Finish

(* --- properties --- *)
(* every declared property with its value, nothing else *)
Faithful == phase = "done" =>
  /\ Cardinality(reported) = Count
  /\ \A i \in 1 .. Len(decl) : \E r \in reported :
       /\ r.id = decl[i].id /\ r.offset = OffsetOf(i) /\ r.t = decl[i].x.t
       /\ (decl[i].x.t \in KnownTypes => r.v = decl[i].x.v) /\ (decl[i].x.t \notin KnownTypes => r.v = <<>>)
  /\ (dict[1] = "has" => \E r \in reported : r.id = DICTIONARY /\ r.entries = dict[2])
Named == \A r \in reported :
  /\ r.label = Label(sets[1] = "HWP", r.id)
  /\ (r.id \notin {DICTIONARY, CODEPAGE} => r.name = IF dict[1] = "has" THEN NameIn(dict[2], r.id) ELSE <<>>)
(* reading one at a time in any order gives the set as a whole *)
Whole == phase = "done" => reported = Reports(bytes, 0)
(* places never overlap *)
Disjoint == phase \in {"open"} => \A i, j \in 1 .. Len(laid) : i < j => At[i] <= At[j - 1] + gap

Emit == phase = "done" => PrintT("@@" \o ToJson([bytes |-> bytes, sets |-> [k \in 1 .. Len(sets) |-> Reports(bytes, k - 1)]]))
=============================================================================
