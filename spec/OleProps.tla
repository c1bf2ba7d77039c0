------------------------------ MODULE OleProps ------------------------------
(* The byte format of property set streams ([MS-OLEPS]) as the summary        *)
(* information of a document has it.  Bytes are sequences of 0..255; numbers  *)
(* of 32 bits are pairs <<high, low>> of 16-bit halves.                        *)
EXTENDS Integers, Sequences, FiniteSets

U16(b, p) == b[p + 1] + 256 * b[p + 2]
U32(b, p) == <<U16(b, p + 2), U16(b, p)>>
(* offsets and counts are small *)
Small(n) == n[1] * 65536 + n[2]
N32(b, p) == Small(U32(b, p))

E16(n) == <<n % 256, n \div 256>>
E32(n) == E16(n[2]) \o E16(n[1])
ES(n) == E32(<<n \div 65536, n % 65536>>)
Zeros(n) == [i \in 1 .. n |-> 0]
Pad4(s) == s \o Zeros((4 - (Len(s) % 4)) % 4)

Flatten(ss) == LET F[i \in 0 .. Len(ss)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o ss[i] IN F[Len(ss)]

(* the identifiers *)
DICTIONARY == <<0, 0>>
CODEPAGE == <<0, 1>>
LOCALE == <<32768, 0>>
BEHAVIOR == <<32768, 3>>
Names == << "TITLE", "SUBJECT", "AUTHOR", "KEYWORDS", "COMMENTS", "TEMPLATE", "LASTAUTHOR", "REVNUMBER", "EDITTIME", "LASTPRINTED", "CREATE_DTM",
            "LASTSAVE_DTM", "PAGECOUNT", "WORDCOUNT", "CHARCOUNT", "THUMBNAIL", "APPNAME", "SECURITY" >>
Label(known, id) ==
  IF ~known THEN "-"
  ELSE CASE id = DICTIONARY -> "PID_DICTIONARY" [] id = CODEPAGE -> "PID_CODEPAGE" [] id = LOCALE -> "PID_LOCALE" [] id = BEHAVIOR -> "PID_BEHAVIOR"
         [] id = <<0, 20>> -> "HWPPIDSI_DATE_STR" [] id = <<0, 21>> -> "HWPPIDSI_PARACOUNT"
         [] id[1] = 0 /\ id[2] \in 2 .. 19 -> "PIDSI_" \o Names[id[2] - 1]
         [] OTHER -> "-"

(* ---- values: [t |-> type code, v |-> sequence of numbers] ---- *)
I4 == 3
WIDE == 31
TIME == 64
KnownTypes == {I4, WIDE, TIME}

EncValue(x) == CASE x.t = I4 -> E32(x.v)
                 [] x.t = TIME -> E32(<<x.v[2], x.v[1]>>) \o E32(<<x.v[4], x.v[3]>>)      \* limbs, lowest first
                 [] x.t = WIDE -> Pad4(ES(Len(x.v) + 1) \o Flatten([i \in 1 .. Len(x.v) |-> E16(x.v[i])]) \o <<0, 0>>)
                 [] OTHER -> x.v                                                          \* whatever a writer puts there
EncTyped(x, flags) == E32(<<flags, x.t>>) \o EncValue(x)

DecTyped(b, p) ==
  LET t == U32(b, p)[2] IN
  CASE t = I4 -> [t |-> t, v |-> U32(b, p + 4)]
    [] t = TIME -> [t |-> t, v |-> << U16(b, p + 4), U16(b, p + 6), U16(b, p + 8), U16(b, p + 10) >>]
    [] t = WIDE -> LET n == N32(b, p + 4) IN [t |-> t, v |-> [i \in 1 .. (IF n = 0 THEN 0 ELSE n - 1) |-> U16(b, p + 6 + 2 * i)]]
    [] OTHER -> [t |-> t, v |-> <<>>]

(* ---- the dictionary: sequence of [id, name], names as character codes ---- *)
EncDict(d) == ES(Len(d)) \o Flatten([i \in 1 .. Len(d) |-> E32(d[i].id) \o ES(Len(d[i].name) + 1) \o d[i].name \o <<0>>])
DecDict(b, p) ==
  LET n == N32(b, p)
      At[i \in 0 .. n] == IF i = 0 THEN p + 4 ELSE At[i - 1] + 8 + N32(b, At[i - 1] + 4)
  IN [i \in 1 .. n |-> [id |-> U32(b, At[i - 1]), name |-> LET l == N32(b, At[i - 1] + 4) IN [j \in 1 .. l - 1 |-> b[At[i - 1] + 8 + j]]]]

(* ---- a stream: the header, 28 bytes, then 20 for each set ---- *)
FmtId(b, k) == SubSeq(b, 28 + 20 * k + 1, 28 + 20 * k + 16)
SetCount(b) == N32(b, 24)
SetOffset(b, k) == N32(b, 28 + 20 * k + 16)
Declared(b, base) == [i \in 1 .. N32(b, base + 4) |-> [id |-> U32(b, base + 8 + 8 * (i - 1)), offset |-> N32(b, base + 12 + 8 * (i - 1))]]

NameIn(dict, id) == IF \E i \in 1 .. Len(dict) : dict[i].id = id
                    THEN dict[CHOOSE i \in 1 .. Len(dict) : dict[i].id = id /\ \A j \in 1 .. i - 1 : dict[j].id # id].name
                    ELSE <<>>
(* what is reported for the declared property d *)
Report(b, base, known, dict, d) ==
  IF d.id = DICTIONARY
  THEN [id |-> d.id, offset |-> d.offset, label |-> Label(known, d.id), name |-> <<>>, t |-> -1, v |-> <<>>, entries |-> DecDict(b, base + d.offset)]
  ELSE LET x == DecTyped(b, base + d.offset) IN
       [id |-> d.id, offset |-> d.offset, label |-> Label(known, d.id), name |-> IF d.id = CODEPAGE THEN <<>> ELSE NameIn(dict, d.id),
        t |-> x.t, v |-> x.v, entries |-> <<>>]
(* the set k (from 0), by the offsets of its properties *)
DictOf(b, base) == LET ds == SelectSeq(Declared(b, base), LAMBDA d : d.id = DICTIONARY) IN IF ds = <<>> THEN <<>> ELSE DecDict(b, base + ds[1].offset)
HWP == <<96, 182, 162, 159, 97, 16, 212, 17, 180, 198, 0, 96, 151, 192, 157, 140>>
Reports(b, k) == LET base == SetOffset(b, k) dict == DictOf(b, base) known == FmtId(b, k) = HWP IN
                 { Report(b, base, known, dict, d) : d \in { Declared(b, base)[i] : i \in 1 .. Len(Declared(b, base)) } }
=============================================================================
