------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* Binlog events, byte by byte (v4 format).  An event e is a byte string.  *)
(* A format f is the denotation of a FORMAT_DESCRIPTION_EVENT.             *)
(***************************************************************************)
EXTENDS Cells

(* ---- common header ----------------------------------------------------- *)
EvTime(e) == Cut(e, 1, 4)
EvType(e) == e[5]
EvServer(e) == Cut(e, 6, 4)
EvLength(e) == Cut(e, 10, 4)
EvNext(e) == Cut(e, 14, 4)
EvFlags(e) == Cut(e, 18, 2)

(* The validity gate: a full header, and a length field that is the truth. *)
IsValid(b) == Len(b) >= 19 /\ LE32Small(b, 10) = Len(b)

EQuery == 2        EStop == 3      ERotate == 4     EIntVar == 5     ERand == 13
EUserVar == 14     EFormat == 15   EXid == 16       ETableMap == 19
EWriteV1 == 23     EUpdateV1 == 24 EDeleteV1 == 25  EHeartbeat == 27
ERowsQuery == 29   EWriteV2 == 30  EUpdateV2 == 31  EDeleteV2 == 32
EGtid == 33        EAnonGtid == 34 EPrevGtids == 35 EMariaGtid == 162

WriteTypes == {EWriteV1, EWriteV2}
UpdateTypes == {EUpdateV1, EUpdateV2}
DeleteTypes == {EDeleteV1, EDeleteV2}
RowTypes == WriteTypes \cup UpdateTypes \cup DeleteTypes
V2Types == {EWriteV2, EUpdateV2, EDeleteV2}

(* ---- format description ------------------------------------------------- *)
RECURSIVE TrimZeros(_)
TrimZeros(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN TrimZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s

FormatOf(e) ==
  LET d == SubSeq(e, 20, Len(e))
      n == Len(d)
  IN IF n < 62 THEN [ok |-> FALSE]
     ELSE [ok |-> LE16(d, 1) = 4 /\ d[57] >= 19,
           version |-> LE16(d, 1),
           server |-> TrimZeros(Cut(d, 3, 50)),
           hl |-> d[57],
           alg |-> d[n - 4],
           sizes |-> SubSeq(d, 58, n - 5)]
SizeOf(f, typ) == IF typ >= 1 /\ typ <= Len(f.sizes) THEN f.sizes[typ] ELSE 0

ChecksumOff == 0
ChecksumCRC == 1
ChecksumUndef == 255
(* the event without its checksum; maria: any other algorithm has 4 bytes   *)
StripOK(f, maria) == maria \/ f.alg \in {ChecksumOff, ChecksumCRC, ChecksumUndef}
Strip(e, f) == IF f.alg \in {ChecksumOff, ChecksumUndef} THEN e ELSE SubSeq(e, 1, Len(e) - 4)
ChecksumOf(e, f) == IF f.alg \in {ChecksumOff, ChecksumUndef} THEN <<>> ELSE SubSeq(e, Len(e) - 3, Len(e))

Body(e, f) == SubSeq(e, f.hl + 1, Len(e))      \* of a stripped event

(* ---- control events ------------------------------------------------------ *)
RotateOf(e, f) == LET d == Body(e, f) IN [off |-> Cut(d, 1, 8), file |-> SubSeq(d, 9, Len(d))]

(* Status variables: the size of each one, so that the next can be found.   *)
RECURSIVE CharsetOf(_, _)
CharsetOf(v, i) ==            \* <<>> when no charset is logged
  IF i > Len(v) THEN <<>>
  ELSE LET c == v[i]
       IN CASE c \in {0, 3} -> CharsetOf(v, i + 5)
            [] c = 1 -> CharsetOf(v, i + 9)
            [] c = 2 -> CharsetOf(v, i + 3 + v[i + 1])
            [] c \in {5, 6} -> CharsetOf(v, i + 2 + v[i + 1])
            [] c = 4 -> <<LE16(v, i + 1), LE16(v, i + 3), LE16(v, i + 5)>>
            [] OTHER -> <<>>          \* the server logs these after the charset
QueryOf(e, f) ==
  LET d == Body(e, f)
      dl == d[9]
      vl == LE16(d, 12)
      p == 14 + vl
  IN [ok |-> p + dl <= Len(d),
      db |-> Cut(d, p, dl),
      cs |-> CharsetOf(Cut(d, 14, vl), 1),
      sql |-> SubSeq(d, p + dl + 1, Len(d))]

IntVarOf(e, f) == LET d == Body(e, f) IN [ok |-> d[1] \in {1, 2}, id |-> d[1], val |-> Cut(d, 2, 8)]
RandOf(e, f) == LET d == Body(e, f) IN [s1 |-> Cut(d, 1, 8), s2 |-> Cut(d, 9, 8)]
XidOf(e, f) == Cut(Body(e, f), 1, 8)
GtidOf(e, f) == LET d == Body(e, f) IN [sid |-> Cut(d, 2, 16), gno |-> Cut(d, 18, 8)]
MariaGtidOf(e, f) ==
  LET d == Body(e, f) IN [seq |-> Cut(d, 1, 8), dom |-> Cut(d, 9, 4), srv |-> EvServer(e), begin |-> d[13] % 2 = 0]

(* ---- length-encoded integers --------------------------------------------- *)
LenEnc(d, i) ==               \* [n, w]: value and width
  CASE d[i] = 252 -> [n |-> LE16(d, i + 1), w |-> 3]
    [] d[i] = 253 -> [n |-> LE24(d, i + 1), w |-> 4]
    [] d[i] = 254 -> [n |-> LE32Small(d, i + 1), w |-> 9]
    [] OTHER -> [n |-> d[i], w |-> 1]

(* ---- table maps ------------------------------------------------------------ *)
IdWidth(f, typ) == IF SizeOf(f, typ) = 6 THEN 4 ELSE 6
TableIdOf(e, f) == LET w == IdWidth(f, EvType(e)) IN Cut(e, f.hl + 1, w)
PadId(id) == id \o Zeros(6 - Len(id))          \* ids compare as numbers

MetaLen(t) ==
  CASE t \in {TDecimalOld, TTiny, TShort, TLong, TNull, TTimestamp, TLongLong, TInt24, TDate, TTime,
              TDateTime, TYear, TNewDate} -> 0
    [] t \in {TFloat, TDouble, TTimestamp2, TDateTime2, TTime2} \cup Blobs -> 1
    [] t \in {TNewDecimal, TEnum, TSet, TString, TVarchar, TBit, TVarString} -> 2
    [] OTHER -> -1
MetaVal(t, d, i) ==
  CASE MetaLen(t) = 0 -> 0
    [] MetaLen(t) = 1 -> d[i]
    [] t \in {TNewDecimal, TEnum, TSet, TString} -> BE16(d, i)
    [] OTHER -> LE16(d, i)

BitAt(d, i, n) == (d[i + (n \div 8)] \div (2 ^ (n % 8))) % 2 = 1     \* n from 0
Bits(d, i, cnt) == [k \in 1..cnt |-> BitAt(d, i, k - 1)]
BitBytes(n) == (n + 7) \div 8

TableMapOf(e, f) ==
  LET d == Body(e, f)
      p0 == IdWidth(f, ETableMap) + 1
      dl == d[p0 + 2]
      p1 == p0 + 2 + 1 + dl + 1               \* table name length
      tl == d[p1]
      p2 == p1 + 1 + tl + 1                   \* column count
      c == LenEnc(d, p2)
      n == c.n
      p3 == p2 + c.w                          \* types
      types == Cut(d, p3, n)
      ml == LenEnc(d, p3 + n)
      p4 == p3 + n + ml.w                     \* metadata
      meta == FoldLeft(LAMBDA a, t : [p |-> a.p + MetaLen(t), m |-> Append(a.m, MetaVal(t, d, a.p))],
                       [p |-> p4, m |-> <<>>], types)
  IN [flags |-> LE16(d, p0),
      db |-> Cut(d, p0 + 3, dl),
      tb |-> Cut(d, p1 + 1, tl),
      types |-> types,
      meta |-> meta.m,
      canNull |-> Bits(d, p4 + ml.n, n)]

(* ---- rows ------------------------------------------------------------------ *)
(* A row image at d[i]: presence over all columns -> NULL bitmap over the     *)
(* present ones -> the cells.  cells: per column [k: kind, s: start, l: len]. *)
BoolCount(b) == FoldLeft(LAMBDA a, x : IF x THEN a + 1 ELSE a, 0, b)

(* The image must end before d[n + 1]; what follows in d is padding.           *)
ImageOf(d, n, i, present, tm) ==
  LET np == BoolCount(present)
      nulls == Bits(d, i, np)
      s0 == i + BitBytes(np)
      r == FoldLeft(LAMBDA a, c :
             IF a.bad THEN a
             ELSE IF ~present[c] THEN [a EXCEPT !.cells = Append(@, [k |-> "absent", s |-> 0, l |-> 0])]
             ELSE IF nulls[a.v + 1] THEN [a EXCEPT !.v = @ + 1, !.cells = Append(@, [k |-> "null", s |-> 0, l |-> 0])]
             ELSE LET l == IF a.p > n + 1 THEN -1 ELSE CellLen(tm.types[c], tm.meta[c], d, a.p)
                  IN IF l < 0 THEN [a EXCEPT !.bad = TRUE]
                     ELSE [a EXCEPT !.p = @ + l, !.v = @ + 1,
                                    !.cells = Append(@, [k |-> "val", s |-> a.p, l |-> l])],
             [p |-> s0, v |-> 0, bad |-> FALSE, cells |-> <<>>], [c \in 1..Len(present) |-> c])
  IN [ok |-> ~r.bad /\ r.p <= n + 1, nulls |-> nulls, s |-> s0, e |-> r.p, cells |-> r.cells]

NoImage == [ok |-> TRUE, nulls |-> <<>>, s |-> 0, e |-> 0, cells |-> <<>>]

RowsOf(e, f, tm) ==
  LET typ == EvType(e)
      d == Body(e, f)
      hasId == typ \in UpdateTypes \cup DeleteTypes
      hasData == typ \in WriteTypes \cup UpdateTypes
      p0 == IdWidth(f, typ) + 1
      p1 == p0 + 2 + (IF typ \in V2Types THEN LE16(d, p0 + 2) ELSE 0)
      c == LenEnc(d, p1)
      n == c.n
      p2 == p1 + c.w
      idCols == IF hasId THEN Bits(d, p2, n) ELSE <<>>
      p3 == p2 + (IF hasId THEN BitBytes(n) ELSE 0)
      dataCols == IF hasData THEN Bits(d, p3, n) ELSE <<>>
      p4 == p3 + (IF hasData THEN BitBytes(n) ELSE 0)
      dp == d \o Zeros(BitBytes(n) + 16)
      nd == Len(d)
      least == (IF hasId THEN BitBytes(BoolCount(idCols)) ELSE 0) + (IF hasData THEN BitBytes(BoolCount(dataCols)) ELSE 0)
      row(i) ==
        LET im == IF hasId THEN ImageOf(dp, nd, i, idCols, tm) ELSE [NoImage EXCEPT !.e = i]
        IN IF ~im.ok THEN <<>>
           ELSE LET dm == IF hasData THEN ImageOf(dp, nd, im.e, dataCols, tm) ELSE [NoImage EXCEPT !.e = im.e]
                IN IF ~dm.ok \/ dm.e = i THEN <<>> ELSE <<[id |-> im, data |-> dm]>>
      RECURSIVE rest(_)
      rest(a) ==
        IF ~a.ok \/ a.p > nd THEN a
        ELSE LET r == row(a.p)
             IN IF r = <<>> THEN [a EXCEPT !.ok = FALSE]
                ELSE rest([ok |-> TRUE, p |-> r[1].data.e, rows |-> Append(a.rows, r[1])])
      rs == rest([ok |-> TRUE, p |-> p4, rows |-> <<>>])
  IN [ok |-> rs.ok, flags |-> LE16(d, p0), n |-> n, idCols |-> idCols, dataCols |-> dataCols,
      hasId |-> hasId, hasData |-> hasData, rows |-> rs.rows]
=============================================================================
