------------------------------ MODULE JsonBin -------------------------------
(***************************************************************************)
(* MySQL's binary JSON, against the text that denotes it:                  *)
(*   JSON_OBJECT('k',v,...)  JSON_ARRAY(v,...)  null true false  numbers   *)
(*   'string'  CAST('..' AS DATE|TIME(6)|DATETIME(6)|DECIMAL(p,s))         *)
(* A top-level scalar is the SQL string that holds the JSON text, a        *)
(* top-level opaque scalar CAST(.. AS JSON).                               *)
(*                                                                         *)
(* JsonMatch walks the document and the text together.  A walk returns     *)
(* the index in the text after the piece that denotes the value, or 0.     *)
(***************************************************************************)
EXTENDS Ieee

(* ---- shared renderings ------------------------------------------------- *)
DateText(y, mo, da) == IntPad(y, 4) \o <<MINUS>> \o IntPad(mo, 2) \o <<MINUS>> \o IntPad(da, 2)
TimeText(h, mi, s) == IntPad(h, 2) \o <<58>> \o IntPad(mi, 2) \o <<58>> \o IntPad(s, 2)

(* ---- packed decimals ---------------------------------------------------- *)
Dig2Bytes == <<0, 1, 1, 2, 2, 3, 3, 4, 4, 4>>
DecimalLen(p, s) ==
  LET ig == p - s
  IN IF p < s THEN -1
     ELSE 4 * (ig \div 9) + Dig2Bytes[(ig % 9) + 1] + 4 * (s \div 9) + Dig2Bytes[(s % 9) + 1]

(* n big-endian bytes starting at i, as exactly w digits                   *)
GroupText(d, i, n, w) == PadText(BigText(BigOfBE(Cut(d, i, n))), w)

DecimalText(p, s, c) ==
  LET neg == c[1] < 128
      d0 == [c EXCEPT ![1] = IF neg THEN @ + 128 ELSE @ - 128]    \* undo the sign bit
      d == IF neg THEN Complement(d0) ELSE d0                      \* and the inversion
      ig == p - s
      ix == ig % 9        in == ig \div 9
      fx == s % 9         fn == s \div 9
      b0 == Dig2Bytes[ix + 1]
      RECURSIVE groups(_, _)
      groups(i, n) == IF n = 0 THEN <<>> ELSE GroupText(d, i, 4, 9) \o groups(i + 4, n - 1)
      lead == IF ix = 0 THEN <<>> ELSE GroupText(d, 1, b0, ix)
      int == lead \o groups(b0 + 1, in)
      f0 == b0 + 4 * in + 1
      frac == groups(f0, fn) \o (IF fx = 0 THEN <<>> ELSE GroupText(d, f0 + 4 * fn, Dig2Bytes[fx + 1], fx))
      it == IF int = <<>> THEN <<48>> ELSE StripZeros(int)
  IN (IF neg THEN <<MINUS>> ELSE <<>>) \o it \o (IF s = 0 THEN <<>> ELSE <<DOT>> \o frac)

(* ---- text matching ------------------------------------------------------ *)
Lit(t, j, s) ==
  IF j = 0 \/ j + Len(s) - 1 > Len(t) THEN 0
  ELSE IF SubSeq(t, j, j + Len(s) - 1) = s THEN j + Len(s) ELSE 0
LitOr(t, j, a, b) == LET x == Lit(t, j, a) IN IF x # 0 THEN x ELSE Lit(t, j, b)

(* A string inside single quotes: quotes and backslashes are escaped.      *)
Special(b) == b = 39 \/ b = 92
SqlEsc(s) ==
  IF \A i \in 1..Len(s) : ~Special(s[i]) THEN s
  ELSE FoldLeft(LAMBDA a, b : IF Special(b) THEN a \o <<92, b>> ELSE Append(a, b), <<>>, s)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
JsonEsc(s) ==
  IF \A i \in 1..Len(s) : s[i] >= 32 /\ s[i] # 34 /\ s[i] # 92 THEN s
  ELSE FoldLeft(LAMBDA a, b : IF b = 34 \/ b = 92 THEN a \o <<92, b>>
                              ELSE IF b < 32 THEN a \o <<92, 117, 48, 48, Hex(b \div 16), Hex(b % 16)>>
                              ELSE Append(a, b), <<>>, s)
(* quotes may be doubled instead of escaped                                *)
SqlEsc2(s) ==
  FoldLeft(LAMBDA a, b : IF Special(b) THEN a \o <<b, b>> ELSE Append(a, b), <<>>, s)
Quote == <<39>>
QuotedLit(t, j, s) ==
  LET k == Lit(t, j, Quote)
      x == Lit(t, k, SqlEsc(s))
      e == Lit(t, x, Quote)
  IN IF e # 0 THEN e ELSE Lit(t, Lit(t, k, SqlEsc2(s)), Quote)

NumEnd(t, j) ==          \* index after the longest run of number characters
  LET S == { k \in j..Len(t) : ~(IsDigit(t[k]) \/ t[k] \in {MINUS, DOT, 43, 69}) }
  IN IF S = {} THEN Len(t) + 1 ELSE CHOOSE k \in S : \A q \in S : k <= q

JObjO == T("JSON_OBJECT(")   JArrO == T("JSON_ARRAY(")   Comma == <<44>>  Close == <<41>>
JNull == T("null") JTrue == T("true") JFalse == T("false")
CastO == T("CAST('")  CastJ == T("CAST(")  AsJ == T(" AS JSON)")
AsDate == T("' AS DATE)")  AsTime == T("' AS TIME(6))")  AsDT == T("' AS DATETIME(6))")
AsDec == T("' AS DECIMAL(")  DblClose == T("))")

(* variable-length size: [n, w] value and width                            *)
VarSize(d, i) ==
  LET RECURSIVE go(_, _, _)
      go(k, sh, acc) == LET v == acc + (d[k] % 128) * sh
                        IN IF d[k] < 128 THEN [n |-> v, w |-> k - i + 1]
                           ELSE go(k + 1, sh * 128, v)
  IN go(i, 1, 0)

Micro(n) == IF n = 0 THEN <<>> ELSE <<DOT>> \o IntPad(n, 6)

(* date, time and datetime inside a document: 8 bytes                      *)
OpaqueTemporal(typ, b) ==
  LET neg == typ = 11 /\ b[8] >= 128
      v == IF neg THEN NegLE(b) ELSE b
      us == LE24(v, 1)
      hms == v[4] + 256 * v[5] + 65536 * (v[6] % 2)
      ymd == (v[6] \div 2) + 128 * v[7] + 32768 * v[8]
      ym == ymd \div 32
      dt == DateText(ym \div 13, ym % 13, ymd % 32)
      tm(h) == TimeText(h, (hms \div 64) % 64, hms % 64)
  IN CASE typ = 10 -> dt
       [] typ = 12 -> dt \o <<32>> \o tm(hms \div 4096) \o Micro(us)
       [] typ = 11 -> (IF neg THEN <<MINUS>> ELSE <<>>)
                      \o tm((hms \div 4096) + 32 * (ymd % 32)) \o Micro(us)

RECURSIVE Walk(_, _, _, _, _, _)
(* the value of type typ at d[base..], text t from j                        *)
Walk(d, typ, base, t, j, top) ==
  LET large == typ \in {1, 3}
      w == IF large THEN 4 ELSE 2
      num(i) == IF large THEN LE32Small(d, i) ELSE LE16(d, i)
      count == num(base)
      scalar(k) == IF top THEN Lit(t, k, Quote) ELSE k       \* quotes around a top-level scalar
      entry(p, j0) ==        \* the value entry at index p
        LET et == d[p]
        IN CASE et = 4 \/ et \in {5, 6} \/ (large /\ et \in {7, 8}) -> Walk(d, et, p + 1, t, j0, FALSE)
             [] OTHER -> Walk(d, et, base + num(p + 1), t, j0, FALSE)
      number(s) == scalar(Lit(t, scalar(j), s))
  IN
  IF j = 0 THEN 0 ELSE
  CASE typ \in {0, 1} ->
         LET kp == base + 2 * w                    \* key entries
             vp == kp + count * (w + 2)            \* value entries
             one(i, j0) ==
               LET ko == num(kp + (i - 1) * (w + 2))
                   kl == LE16(d, kp + (i - 1) * (w + 2) + w)
                   j1 == IF i = 1 THEN j0 ELSE Lit(t, j0, Comma)
                   j2 == QuotedLit(t, j1, Cut(d, base + ko, kl))
               IN IF j2 = 0 THEN 0 ELSE entry(vp + (i - 1) * (w + 1), Lit(t, j2, Comma))
         IN Lit(t, FoldLeft(LAMBDA a, i : IF a = 0 THEN 0 ELSE one(i, a), Lit(t, j, JObjO),
                            [i \in 1..count |-> i]), Close)
    [] typ \in {2, 3} ->
         LET vp == base + 2 * w
             one(i, j0) == entry(vp + (i - 1) * (w + 1), IF i = 1 THEN j0 ELSE Lit(t, j0, Comma))
         IN Lit(t, FoldLeft(LAMBDA a, i : IF a = 0 THEN 0 ELSE one(i, a), Lit(t, j, JArrO),
                            [i \in 1..count |-> i]), Close)
    [] typ = 4 -> number(CASE d[base] = 0 -> JNull [] d[base] = 1 -> JTrue [] d[base] = 2 -> JFalse)
    [] typ = 5 -> number(SIntText(Cut(d, base, 2)))
    [] typ = 6 -> number(UIntText(Cut(d, base, 2)))
    [] typ = 7 -> number(SIntText(Cut(d, base, 4)))
    [] typ = 8 -> number(UIntText(Cut(d, base, 4)))
    [] typ = 9 -> number(SIntText(Cut(d, base, 8)))
    [] typ = 10 -> number(UIntText(Cut(d, base, 8)))
    [] typ = 11 -> LET k == scalar(j)
                   IN IF k = 0 THEN 0
                      ELSE LET e == NumEnd(t, k)
                           IN IF FloatMatch(Cut(d, base, 8), SubSeq(t, k, e - 1), TRUE) THEN scalar(e) ELSE 0
    [] typ = 12 -> LET v == VarSize(d, base)
                       s == Cut(d, base + v.w, v.n)
                   IN IF top THEN QuotedLit(t, j, <<34>> \o JsonEsc(s) \o <<34>>)
                      ELSE QuotedLit(t, j, s)
    [] typ = 15 ->
         LET ot == d[base]
             v == VarSize(d, base + 1)
             b == Cut(d, base + 1 + v.w, v.n)
             k0 == IF top THEN Lit(t, j, CastJ) ELSE j
             k1 == Lit(t, k0, CastO)
             e == CASE ot \in {10, 11, 12} ->
                         LET k2 == Lit(t, k1, OpaqueTemporal(ot, b))
                             cl == CASE ot = 10 -> AsDate [] ot = 11 -> AsTime [] OTHER -> AsDT
                         IN LitOr(t, k2, cl, IF ot # 10 /\ LE24(IF ot = 11 /\ b[8] >= 128 THEN NegLE(b) ELSE b, 1) = 0
                                             THEN T(".000000") \o cl ELSE cl)
                    [] ot = 246 ->
                         Lit(t, Lit(t, Lit(t, Lit(t, Lit(t, k1,
                             DecimalText(b[1], b[2], SubSeq(b, 3, Len(b)))), AsDec),
                             IntText(b[1])), Comma), IntText(b[2]) \o DblClose)
                    [] OTHER -> 0
         IN IF top THEN Lit(t, e, AsJ) ELSE e
    [] OTHER -> 0

(* ---- is a document one at all ------------------------------------------------ *)
VarFits(d, i) == \E k \in i..(i + 3) : k <= Len(d) /\ d[k] < 128
RECURSIVE DocOK(_, _, _)
(* the value of type typ at d[base..]: kinds are known, everything lies inside      *)
DocOK(d, typ, base) ==
  LET n == Len(d)
      large == typ \in {1, 3}
      w == IF large THEN 4 ELSE 2
      num(i) == IF large THEN LE32Small(d, i) ELSE LE16(d, i)
      entry(p) ==
        LET et == d[p]
        IN IF et \in {4, 5, 6} \/ (large /\ et \in {7, 8}) THEN DocOK(d, et, p + 1)
           ELSE LET o == num(p + 1) IN o >= 0 /\ o < n /\ base + o > p /\ DocOK(d, et, base + o)
  IN CASE typ \in 0..3 ->
            /\ base + 2 * w - 1 <= n
            /\ num(base) \in 0..n /\ num(base + w) \in 0..(n - base + 1)
            /\ LET c == num(base)
                   kp == base + 2 * w
                   vp == kp + (IF typ \in {0, 1} THEN c * (w + 2) ELSE 0)
               IN /\ vp + c * (w + 1) - 1 <= n
                  /\ typ \in {0, 1} =>
                       \A i \in 0..(c - 1) : LET o == num(kp + i * (w + 2))
                                             IN o \in 0..n /\ base + o + LE16(d, kp + i * (w + 2) + w) - 1 <= n
                  /\ \A i \in 0..(c - 1) : entry(vp + i * (w + 1))
       [] typ = 4 -> base <= n /\ d[base] <= 2
       [] typ \in {5, 6} -> base + 1 <= n
       [] typ \in {7, 8} -> base + 3 <= n
       [] typ \in {9, 10, 11} -> base + 7 <= n
       [] typ = 12 -> VarFits(d, base) /\ LET v == VarSize(d, base) IN base + v.w + v.n - 1 <= n
       [] typ = 15 -> base <= n /\ d[base] \in {10, 11, 12, 246} /\ VarFits(d, base + 1)
                      /\ LET v == VarSize(d, base + 1)
                             q == base + 1 + v.w
                         IN /\ q + v.n - 1 <= n
                            /\ IF d[base] # 246 THEN v.n >= 8
                               ELSE /\ v.n >= 3
                                    /\ d[q] \in 1..65 /\ d[q + 1] <= 30 /\ d[q] >= d[q + 1]
                                    /\ v.n - 2 >= DecimalLen(d[q], d[q + 1])
       [] OTHER -> FALSE

NullDoc == T("'null'")
JsonMatch(d, text) ==
  IF d = <<>> THEN text = NullDoc      \* the server logs an empty document for the JSON null of a failed default
  ELSE Walk(d, d[1], 2, text, 1, TRUE) = Len(text) + 1
=============================================================================
