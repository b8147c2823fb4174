-------------------------------- MODULE Ieee --------------------------------
(***************************************************************************)
(* IEEE 754 values against decimal text.                                   *)
(*                                                                         *)
(* A finite value is (-1)^s * M * 2^E.  A text denotes the rational        *)
(* D * 10^k; it reads back as the value iff it lies between the two        *)
(* midpoints to the neighbouring values, a midpoint itself being resolved  *)
(* to the even mantissa (round half to even).                              *)
(***************************************************************************)
EXTENDS Bytes

(* b: little-endian bytes, 4 or 8 of them                                  *)
Ieee32(b) ==
  LET ex == (b[4] % 128) * 2 + (b[3] \div 128)
      fr == (b[3] % 128) * 65536 + b[2] * 256 + b[1]
  IN [neg |-> b[4] >= 128, fin |-> ex # 255,
      m |-> BigOfInt(IF ex = 0 THEN fr ELSE fr + 8388608),
      odd |-> b[1] % 2 = 1,
      narrow |-> fr = 0 /\ ex > 1,     \* the gap below is half the gap above
      e |-> (IF ex = 0 THEN 1 ELSE ex) - 150]
Ieee64(b) ==
  LET ex == (b[8] % 128) * 16 + (b[7] \div 16)
      top == (b[7] % 16) + (IF ex = 0 THEN 0 ELSE 16)
      mag == <<top, b[6], b[5], b[4], b[3], b[2], b[1]>>
  IN [neg |-> b[8] >= 128, fin |-> ex # 2047,
      m |-> BigOfBE(mag),
      odd |-> b[1] % 2 = 1,
      narrow |-> b[7] % 16 = 0 /\ (\A i \in 1..6 : b[i] = 0) /\ ex > 1,
      e |-> (IF ex = 0 THEN 1 ELSE ex) - 1075]

IndexOf(t, b) == SelectInSeq(t, LAMBDA x : x = b)          \* 0: absent
AllDigits(t) == \A i \in 1..Len(t) : IsDigit(t[i])

SmallInt(t) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, t)

(* -?digits[.digits][E[+-]digits];  value D * 10^k                          *)
ParseDec(text, expAllowed) ==
  LET neg == Len(text) > 0 /\ text[1] = MINUS
      t0 == IF neg THEN Tail(text) ELSE text
      xe == IndexOf(t0, 69)
      mant == IF xe = 0 THEN t0 ELSE SubSeq(t0, 1, xe - 1)
      ex0 == IF xe = 0 THEN <<>> ELSE SubSeq(t0, xe + 1, Len(t0))
      exneg == ex0 # <<>> /\ ex0[1] = MINUS
      ex == IF ex0 # <<>> /\ ex0[1] \in {MINUS, 43} THEN Tail(ex0) ELSE ex0
      dot == IndexOf(mant, DOT)
      ip == IF dot = 0 THEN mant ELSE SubSeq(mant, 1, dot - 1)
      fp == IF dot = 0 THEN <<>> ELSE SubSeq(mant, dot + 1, Len(mant))
      ok == /\ ip # <<>> /\ AllDigits(ip) /\ AllDigits(fp) /\ (dot # 0 => fp # <<>>)
            /\ (xe # 0 => expAllowed /\ ex # <<>> /\ AllDigits(ex) /\ Len(ex) <= 4)
  IN IF ~ok THEN [ok |-> FALSE, neg |-> neg, d |-> <<>>, k |-> 0]
     ELSE [ok |-> TRUE, neg |-> neg, d |-> BigOfDigits(ip \o fp),
           k |-> (IF xe = 0 THEN 0 ELSE (IF exneg THEN -1 ELSE 1) * SmallInt(ex)) - Len(fp)]

ReadsBackAs(p, f) ==        \* p: a parsed text, f: a finite value
  LET up == BigAdd(BigMulAdd(f.m, 4, 0), <<2>>)
      q == f.e - 2
      scale(x, two, ten) == BigShl10(BigShl(x, IF two > 0 THEN two ELSE 0), IF ten > 0 THEN ten ELSE 0)
      L == scale(p.d, -q, p.k)
      R(x) == scale(x, q, -p.k)
      \* L + slack compared with 4M avoids subtraction: 4M - s <= D  <=>  4M <= D + s
      slack == R(IF f.narrow THEN <<1>> ELSE <<2>>)
      c1 == BigCmp(L, R(up))
      c2 == BigCmp(BigAdd(L, slack), R(BigMulAdd(f.m, 4, 0)))
  IN /\ p.neg = f.neg
     /\ c1 < 0 \/ (c1 = 0 /\ ~f.odd)
     /\ c2 > 0 \/ (c2 = 0 /\ ~f.odd)

FloatMatch(b, text, expAllowed) ==
  LET f == IF Len(b) = 4 THEN Ieee32(b) ELSE Ieee64(b)
      p == ParseDec(text, expAllowed)
  IN IF ~f.fin THEN TRUE          \* MySQL stores no infinities and no NaNs
     ELSE p.ok /\ ReadsBackAs(p, f)
=============================================================================
