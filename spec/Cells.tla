------------------------------- MODULE Cells --------------------------------
(***************************************************************************)
(* What a cell of a row image denotes: its length and its text.            *)
(* t: MySQL column type byte, m: table map metadata (16 bit), d: data,     *)
(* i: 1-based index of the first byte of the cell, u: column is unsigned.  *)
(***************************************************************************)
EXTENDS Ieee, JsonBin

TDecimalOld == 0     TTiny == 1          TShort == 2      TLong == 3
TFloat == 4          TDouble == 5        TNull == 6       TTimestamp == 7
TLongLong == 8       TInt24 == 9         TDate == 10      TTime == 11
TDateTime == 12      TYear == 13         TNewDate == 14   TVarchar == 15
TBit == 16           TTimestamp2 == 17   TDateTime2 == 18 TTime2 == 19
TJSON == 245         TNewDecimal == 246  TEnum == 247     TSet == 248
TTinyBlob == 249     TMediumBlob == 250  TLongBlob == 251 TBlob == 252
TVarString == 253    TString == 254      TGeometry == 255

Blobs == {TJSON, TTinyBlob, TMediumBlob, TLongBlob, TBlob, TGeometry}

StringMax(m) ==            \* declared length of CHAR/BINARY in bytes
  LET b == (m \div 4096) % 4               \* bits 12,13; stored inverted
  IN (3 - b) * 256 + (m % 256)
StringReal(m) ==           \* the real type hidden in the metadata of MYSQL_TYPE_STRING
  IF m \div 256 \in {TEnum, TSet} THEN m \div 256 ELSE TString

PrefixLen(t, m) ==         \* number of length-prefix bytes of a variable-length cell
  CASE t \in {TVarchar, TVarString} -> IF m > 255 THEN 2 ELSE 1
    [] t = TString -> IF StringMax(m) > 255 THEN 2 ELSE 1
    [] OTHER -> m
ReadLE(d, i, n) ==
  CASE n = 1 -> d[i] [] n = 2 -> LE16(d, i) [] n = 3 -> LE24(d, i) [] n = 4 -> LE32Small(d, i)

VarLen(t, m, d, i) ==
  LET p == PrefixLen(t, m)
  IN IF p \notin 1..4 \/ ~Has(d, i, p) THEN -1
     ELSE LET l == ReadLE(d, i, p) IN IF l < 0 THEN -1 ELSE p + l

(* ---- length: -1 when the cell cannot be measured ---------------------- *)
CellLen(t, m, d, i) ==
  CASE t = TNull -> 0
    [] t \in {TTiny, TYear} -> 1
    [] t = TShort -> 2
    [] t \in {TInt24, TDate, TTime, TNewDate} -> 3
    [] t \in {TLong, TFloat, TTimestamp} -> 4
    [] t \in {TLongLong, TDouble, TDateTime} -> 8
    [] t = TTimestamp2 -> 4 + ((m + 1) \div 2)
    [] t = TDateTime2 -> 5 + ((m + 1) \div 2)
    [] t = TTime2 -> 3 + ((m + 1) \div 2)
    [] t = TBit -> (m \div 256) + (((m % 256) + 7) \div 8)
    [] t = TNewDecimal -> DecimalLen(m \div 256, m % 256)
    [] t \in {TEnum, TSet} -> m % 256
    [] t = TString /\ StringReal(m) # TString -> m % 256
    [] t \in {TVarchar, TVarString, TString} \cup Blobs -> VarLen(t, m, d, i)
    [] OTHER -> -1

(* ---- timestamps -------------------------------------------------------- *)
ZeroTS == T("0000-00-00 00:00:00")
(* hi, lo: 16-bit halves of the second count; off: seconds east of UTC     *)
TimestampText(hi, lo, off) ==
  LET l == lo + off + 86400
      q == hi * 512 + (l \div 128)
      z == (q \div 675) - 1 + 719468
      secs == (q % 675) * 128 + (l % 128)
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      day == doy - ((153 * mp + 2) \div 5) + 1
      mon == IF mp < 10 THEN mp + 3 ELSE mp - 9
      year == yoe + era * 400 + (IF mon <= 2 THEN 1 ELSE 0)
  IN DateText(year, mon, day) \o <<32>> \o TimeText(secs \div 3600, (secs \div 60) % 60, secs % 60)

(* fractional digits: n stored bytes hold the value in units that make an  *)
(* even number of digits, an odd precision drops the last one              *)
FracBytes(fsp) == (fsp + 1) \div 2
FracText(fsp, v) ==
  IF fsp = 0 THEN <<>>
  ELSE <<DOT>> \o IntPad(IF fsp % 2 = 1 THEN v \div 10 ELSE v, fsp)
BEInt(d, i, n) == CASE n = 0 -> 0 [] n = 1 -> d[i] [] n = 2 -> BE16(d, i) [] OTHER -> BE24(d, i)

(* ---- text; c is exactly one cell ---------------------------------------- *)
TimeOldText(c) ==
  LET neg == c[3] >= 128
      v == LE24(IF neg THEN NegLE(c) ELSE c, 1)
  IN (IF neg THEN <<MINUS>> ELSE <<>>) \o TimeText(v \div 10000, (v \div 100) % 100, v % 100)

DateTimeOldText(c) ==
  LET t == PadText(BigText(BigOfLE(c)), 14)       \* YYYYMMDDHHMMSS
      S(a, b) == SubSeq(t, a, b)
  IN S(1, 4) \o <<MINUS>> \o S(5, 6) \o <<MINUS>> \o S(7, 8) \o <<32>>
     \o S(9, 10) \o <<58>> \o S(11, 12) \o <<58>> \o S(13, 14)

Time2Text(c, fsp) ==
  LET n == FracBytes(fsp)
      w == 256 ^ n
      hi == BE24(c, 1)                     \* offset by 0x800000
      fr == BEInt(c, 4, n)
      neg == hi < 8388608
      h == IF ~neg THEN hi - 8388608
           ELSE IF fr = 0 THEN 8388608 - hi ELSE 8388607 - hi
      f == IF neg /\ fr # 0 THEN w - fr ELSE fr
  IN (IF neg THEN <<MINUS>> ELSE <<>>)
     \o TimeText((h \div 4096) % 1024, (h \div 64) % 64, h % 64) \o FracText(fsp, f)

DateTime2Text(c, fsp) ==
  LET ymd == (c[1] - 128) * 32768 + c[2] * 128 + (c[3] \div 2)      \* bits 17..39
      hms == (c[3] % 2) * 65536 + c[4] * 256 + c[5]
      ym == ymd \div 32
  IN DateText(ym \div 13, ym % 13, ymd % 32) \o <<32>>
     \o TimeText(hms \div 4096, (hms \div 64) % 64, hms % 64)
     \o FracText(fsp, BEInt(c, 6, FracBytes(fsp)))

(* Types whose text is a function of the cell (all but FLOAT, DOUBLE, JSON)  *)
CellText(t, m, c, u, off) ==
  CASE t \in {TTiny, TShort, TInt24, TLong, TLongLong} -> IF u THEN UIntText(c) ELSE SIntText(c)
    [] t = TYear -> IF c[1] = 0 THEN T("0000") ELSE IntText(1900 + c[1])
    [] t \in {TDate, TNewDate} -> LET v == LE24(c, 1) IN DateText(v \div 512, (v \div 32) % 16, v % 32)
    [] t = TTime -> TimeOldText(c)
    [] t = TDateTime -> DateTimeOldText(c)
    [] t = TTimestamp -> IF AllZero(c) THEN ZeroTS ELSE TimestampText(LE16(c, 3), LE16(c, 1), off)
    [] t = TTimestamp2 ->
         (IF c[1] = 0 /\ c[2] = 0 /\ c[3] = 0 /\ c[4] = 0 THEN ZeroTS
          ELSE TimestampText(BE16(c, 1), BE16(c, 3), off))
         \o FracText(m, BEInt(c, 5, FracBytes(m)))
    [] t = TDateTime2 -> DateTime2Text(c, m)
    [] t = TTime2 -> Time2Text(c, m)
    [] t = TNewDecimal -> DecimalText(m \div 256, m % 256, c)
    [] t = TBit -> c
    [] t = TEnum \/ (t = TString /\ StringReal(m) = TEnum) -> UIntText(c)
    [] t = TString /\ StringReal(m) = TSet -> UIntText(c)
    [] t \in {TVarchar, TVarString, TString, TTinyBlob, TMediumBlob, TLongBlob, TBlob, TGeometry} ->
         LET p == PrefixLen(t, m) IN SubSeq(c, p + 1, Len(c))

CellMatch(t, m, c, u, off, text) ==
  CASE t \in {TFloat, TDouble} -> FloatMatch(c, text, FALSE)
    [] t = TJSON -> JsonMatch(SubSeq(c, m + 1, Len(c)), text)
    [] t = TSet -> text = c \/ text = UIntText(c)   \* never logged by a server: both forms are sensible
    [] OTHER -> text = CellText(t, m, c, u, off)
=============================================================================
