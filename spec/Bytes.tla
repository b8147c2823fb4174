------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings and exact arithmetic.                                      *)
(*                                                                         *)
(* A byte string is a sequence of 0..255.  TLC integers have 32 bits, so   *)
(* a number that may be wider is a Big: the sequence of its base-10000     *)
(* limbs, least significant first, no leading zero limb; <<>> is zero.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Byte == 0..255
DIG0 == 48          \* '0'
MINUS == 45
DOT == 46

(* ASCII text as bytes: used only on constant strings (no percent sign:    *)
(* TLC's parser chokes on it inside a string).                             *)
ASCII ==
  "&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in { SubSeq(ASCII, i, i) : i \in 1..Len(ASCII) } \cup {" ", "!", "\"", "#", "$"} |->
              CASE c = " " -> 32 [] c = "!" -> 33 [] c = "\"" -> 34 [] c = "#" -> 35 [] c = "$" -> 36
                [] OTHER -> 37 + (CHOOSE i \in 1..Len(ASCII) : SubSeq(ASCII, i, i) = c)]
T(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
IsDigit(b) == b >= 48 /\ b <= 57

(* ---- bounded reads; i is 1-based -------------------------------------- *)
Has(s, i, n) == i >= 1 /\ n >= 0 /\ i + n - 1 <= Len(s)
LE16(s, i) == s[i] + 256 * s[i+1]
LE24(s, i) == s[i] + 256 * s[i+1] + 65536 * s[i+2]
BE16(s, i) == 256 * s[i] + s[i+1]
BE24(s, i) == 65536 * s[i] + 256 * s[i+1] + s[i+2]
Cut(s, i, n) == SubSeq(s, i, i + n - 1)
(* A 4-byte length: -1 when it does not fit TLC's integers (then it is     *)
(* larger than any buffer considered here).                                *)
LE32Small(s, i) == IF s[i+3] >= 128 THEN -1
                   ELSE s[i] + 256 * s[i+1] + 65536 * s[i+2] + 16777216 * s[i+3]
BE32Small(s, i) == IF s[i] >= 128 THEN -1
                   ELSE s[i+3] + 256 * s[i+2] + 65536 * s[i+1] + 16777216 * s[i]
(* a long string, given as pieces that repeat                              *)
Unpack(ps) == FoldLeft(LAMBDA a, p : a \o (IF p.n = 1 THEN p.b ELSE [i \in 1..(p.n * Len(p.b)) |-> p.b[((i - 1) % Len(p.b)) + 1]]),
                       <<>>, ps)
Zeros(n) == [i \in 1..n |-> 0]
Complement(s) == [i \in 1..Len(s) |-> 255 - s[i]]
AllZero(s) == \A i \in 1..Len(s) : s[i] = 0

(* little-endian bytes of -x, for x given as little-endian bytes           *)
NegLE(s) ==
  FoldLeft(LAMBDA a, b : [c |-> IF a.c = 1 /\ b = 0 THEN 1 ELSE 0,
                          r |-> Append(a.r, (255 - b + a.c) % 256)],
           [c |-> 1, r |-> <<>>], s).r

(* ---- Big --------------------------------------------------------------- *)
BASE == 10000
RECURSIVE Spill(_)
Spill(c) == IF c = 0 THEN <<>> ELSE <<c % BASE>> \o Spill(c \div BASE)

BigMulAdd(x, m, a) ==        \* x*m + a,  m <= 200000, a < 2^30
  LET r == FoldLeft(LAMBDA acc, l : LET v == l * m + acc.c
                                    IN [c |-> v \div BASE, o |-> Append(acc.o, v % BASE)],
                    [c |-> a, o |-> <<>>], x)
      o == r.o \o Spill(r.c)
  IN o

RECURSIVE BigTrim(_)
BigTrim(x) == IF x = <<>> THEN x
              ELSE IF x[Len(x)] = 0 THEN BigTrim(SubSeq(x, 1, Len(x) - 1)) ELSE x

BigOfBE(s) == FoldLeft(LAMBDA acc, b : BigMulAdd(acc, 256, b), <<>>, s)
BigOfLE(s) == FoldRight(LAMBDA b, acc : BigMulAdd(acc, 256, b), s, <<>>)
BigOfInt(n) == Spill(n)

BigCmp(x, y) ==              \* -1, 0, 1;  both trimmed
  IF Len(x) # Len(y) THEN IF Len(x) < Len(y) THEN -1 ELSE 1
  ELSE LET d == { i \in 1..Len(x) : x[i] # y[i] }
       IN IF d = {} THEN 0
          ELSE LET m == CHOOSE i \in d : \A j \in d : j <= i
               IN IF x[m] < y[m] THEN -1 ELSE 1

BigAdd(x, y) ==
  LET n == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
      r == FoldLeft(LAMBDA acc, i :
             LET v == (IF i <= Len(x) THEN x[i] ELSE 0) + (IF i <= Len(y) THEN y[i] ELSE 0) + acc.c
             IN [c |-> v \div BASE, o |-> Append(acc.o, v % BASE)],
             [c |-> 0, o |-> <<>>], [i \in 1..n |-> i])
  IN r.o \o Spill(r.c)

(* multiplication with a Big: schoolbook, limbs of y outermost             *)
BigMul(x, y) ==
  IF x = <<>> \/ y = <<>> THEN <<>>
  ELSE FoldRight(LAMBDA l, acc :
          LET shifted == IF acc = <<>> THEN <<>> ELSE <<0>> \o acc
          IN BigTrim(BigAdd(shifted, BigMulAdd(x, l, 0))), y, <<>>)

RECURSIVE BigMulPow(_, _, _)
BigMulPow(x, m, n) == IF n = 0 THEN x ELSE BigMulPow(BigMulAdd(x, m, 0), m, n - 1)

(* x * 2^n, in steps of 2^16; x * 10^n, in steps of 10^4 (a limb)          *)
BigShl(x, n) == IF x = <<>> THEN x ELSE BigMulAdd(BigMulPow(x, 65536, n \div 16), 2 ^ (n % 16), 0)
BigShl10(x, n) == IF x = <<>> THEN x
                  ELSE Zeros(n \div 4) \o BigMulAdd(x, 10 ^ (n % 4), 0)

(* decimal text                                                            *)
Dig4(l) == <<48 + (l \div 1000), 48 + ((l \div 100) % 10), 48 + ((l \div 10) % 10), 48 + (l % 10)>>
RECURSIVE StripZeros(_)
StripZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN StripZeros(Tail(t)) ELSE t
BigText(x) ==
  IF x = <<>> THEN <<48>>
  ELSE StripZeros(FoldRight(LAMBDA l, acc : acc \o Dig4(l), x, <<>>))

BigOfDigits(t) ==            \* digits text -> Big (any number of leading zeros)
  LET n == Len(t)
      k == (n + 3) \div 4
      limb(j) == FoldLeft(LAMBDA a, i : IF i >= 1 THEN 10 * a + (t[i] - 48) ELSE a, 0,
                          [q \in 1..4 |-> n - 4 * j + q])
  IN BigTrim([j \in 1..k |-> limb(j)])

(* decimal text of small integers                                          *)
RECURSIVE IntTextRec(_)
IntTextRec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(IntTextRec(n \div 10), 48 + (n % 10))
IntText(n) == IF n < 0 THEN <<MINUS>> \o IntTextRec(-n) ELSE IntTextRec(n)
RECURSIVE PadText(_, _)
PadText(t, w) == IF Len(t) >= w THEN t ELSE PadText(<<48>> \o t, w)
IntPad(n, w) == PadText(IntTextRec(n), w)

UIntText(s) == BigText(BigOfLE(s))                 \* little-endian, unsigned
SIntText(s) == IF s[Len(s)] >= 128 THEN <<MINUS>> \o BigText(BigOfLE(NegLE(s)))
               ELSE BigText(BigOfLE(s))            \* little-endian, two's complement
=============================================================================
