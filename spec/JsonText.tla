------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON texts (RFC 8259) as byte strings, and what they denote:            *)
(*   [t |-> "str", s |-> bytes]   [t |-> "num", s |-> text]                *)
(*   [t |-> "lit", s |-> text]    [t |-> "arr", v |-> values]              *)
(*   [t |-> "obj", k |-> keys, v |-> values]                               *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

(* ---- UTF-8 ------------------------------------------------------------------ *)
(* need: how many continuation bytes follow, lo..hi: what the next one may be     *)
Utf8Step(a, b) ==
  IF a.bad THEN a
  ELSE IF a.need > 0
  THEN IF b < a.lo \/ b > a.hi THEN [a EXCEPT !.bad = TRUE] ELSE [bad |-> FALSE, need |-> a.need - 1, lo |-> 128, hi |-> 191]
  ELSE CASE b < 128 -> a
         [] b >= 194 /\ b <= 223 -> [bad |-> FALSE, need |-> 1, lo |-> 128, hi |-> 191]
         [] b = 224 -> [bad |-> FALSE, need |-> 2, lo |-> 160, hi |-> 191]
         [] b = 237 -> [bad |-> FALSE, need |-> 2, lo |-> 128, hi |-> 159]
         [] b >= 225 /\ b <= 239 -> [bad |-> FALSE, need |-> 2, lo |-> 128, hi |-> 191]
         [] b = 240 -> [bad |-> FALSE, need |-> 3, lo |-> 144, hi |-> 191]
         [] b >= 241 /\ b <= 243 -> [bad |-> FALSE, need |-> 3, lo |-> 128, hi |-> 191]
         [] b = 244 -> [bad |-> FALSE, need |-> 3, lo |-> 128, hi |-> 143]
         [] OTHER -> [a EXCEPT !.bad = TRUE]
ValidUtf8(s) ==
  LET r == FoldLeft(Utf8Step, [bad |-> FALSE, need |-> 0, lo |-> 0, hi |-> 0], s) IN ~r.bad /\ r.need = 0
Utf8Of(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* ---- tokens -------------------------------------------------------------------- *)
(* [k, s]: k is the punctuation byte, or "s" (34), number (48), literal (97)           *)
HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b >= 97 /\ b <= 102 THEN b - 87 ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE -1
IsHigh(c) == c >= 55296 /\ c <= 56319
IsLow(c) == c >= 56320 /\ c <= 57343
Replacement == <<239, 191, 189>>
(* a surrogate that no partner follows denotes nothing in particular                    *)
Flush(a) == IF a.hi = -1 THEN a ELSE [a EXCEPT !.hi = -1, !.cur = @ \o Replacement]
Put(a, s) == LET b == Flush(a) IN [b EXCEPT !.cur = @ \o s]
CodeUnit(a, c) ==
  IF IsLow(c) /\ a.hi # -1 THEN [a EXCEPT !.hi = -1, !.cur = @ \o Utf8Of(65536 + 1024 * (a.hi - 55296) + (c - 56320))]
  ELSE IF IsHigh(c) THEN [Flush(a) EXCEPT !.hi = c]
  ELSE IF IsLow(c) THEN Put(a, Replacement)
  ELSE Put(a, Utf8Of(c))
Emit(a, k, s) == [a EXCEPT !.toks = Append(@, [k |-> k, s |-> s]), !.m = "out", !.cur = <<>>]
NumByte(b) == IsDigit(b) \/ b \in {43, 45, 46, 69, 101}
Lower26(b) == b >= 97 /\ b <= 122
Bad(a) == [a EXCEPT !.bad = TRUE]

Outside(a, b) ==
  CASE b \in {32, 9, 10, 13} -> a
    [] b \in {123, 125, 91, 93, 58, 44} -> Emit(a, b, <<>>)
    [] b = 34 -> [a EXCEPT !.m = "str", !.cur = <<>>]
    [] IsDigit(b) \/ b = 45 -> [a EXCEPT !.m = "num", !.cur = <<b>>]
    [] Lower26(b) -> [a EXCEPT !.m = "lit", !.cur = <<b>>]
    [] OTHER -> Bad(a)
InString(a, b) ==
  CASE b = 34 -> LET c == Flush(a) IN Emit(c, 34, c.cur)
    [] b = 92 -> [a EXCEPT !.m = "esc"]
    [] b < 32 -> Bad(a)
    [] OTHER -> IF a.hi = -1 THEN [a EXCEPT !.cur = Append(@, b)] ELSE Put(a, <<b>>)
Escape(a, b) ==
  LET r == [a EXCEPT !.m = "str"]
  IN CASE b \in {34, 92, 47} -> Put(r, <<b>>)
       [] b = 98 -> Put(r, <<8>>) [] b = 102 -> Put(r, <<12>>) [] b = 110 -> Put(r, <<10>>)
       [] b = 114 -> Put(r, <<13>>) [] b = 116 -> Put(r, <<9>>)
       [] b = 117 -> [a EXCEPT !.m = "hex", !.h = <<>>]
       [] OTHER -> Bad(a)
InHex(a, b) ==
  IF HexVal(b) = -1 THEN Bad(a)
  ELSE IF Len(a.h) < 3 THEN [a EXCEPT !.h = Append(@, HexVal(b))]
  ELSE CodeUnit([a EXCEPT !.m = "str"], 4096 * a.h[1] + 256 * a.h[2] + 16 * a.h[3] + HexVal(b))
LexStep(a, b) ==
  IF a.bad THEN a
  ELSE CASE a.m = "str" -> InString(a, b)
         [] a.m = "esc" -> Escape(a, b)
         [] a.m = "hex" -> InHex(a, b)
         [] a.m = "num" -> IF NumByte(b) THEN [a EXCEPT !.cur = Append(@, b)] ELSE Outside(Emit(a, 48, a.cur), b)
         [] a.m = "lit" -> IF Lower26(b) THEN [a EXCEPT !.cur = Append(@, b)] ELSE Outside(Emit(a, 97, a.cur), b)
         [] OTHER -> Outside(a, b)
(* a last blank ends a number or literal                                                *)
Lex(s) == FoldLeft(LexStep, [m |-> "out", cur |-> <<>>, h |-> <<>>, hi |-> -1, toks |-> <<>>, bad |-> FALSE], Append(s, 32))

(* ---- numbers --------------------------------------------------------------------- *)
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
At(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
NumberOK(s) ==
  LET a == IF At(s, 1) = 45 THEN 2 ELSE 1
      b == DigitsEnd(s, a)
      c == IF At(s, b) = 46 THEN DigitsEnd(s, b + 1) ELSE b
      d == IF At(s, c) \in {69, 101} THEN c + 1 + (IF At(s, c + 1) \in {43, 45} THEN 1 ELSE 0) ELSE c
      e == DigitsEnd(s, d)
  IN /\ b > a /\ (s[a] = 48 => b = a + 1)
     /\ (At(s, b) = 46 => c > b + 1)
     /\ (d > c => e > d)
     /\ e = Len(s) + 1
Literals == {T("true"), T("false"), T("null")}

(* ---- values ------------------------------------------------------------------------ *)
Fail == [ok |-> FALSE, i |-> 0, v |-> <<>>]
Good(v, i) == [ok |-> TRUE, i |-> i, v |-> v]
Kind(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE 0
RECURSIVE ValueAt(_, _), Elements(_, _, _), Members(_, _, _, _)
ValueAt(ts, i) ==
  CASE Kind(ts, i) = 34 -> Good([t |-> "str", s |-> ts[i].s], i + 1)
    [] Kind(ts, i) = 48 -> IF NumberOK(ts[i].s) THEN Good([t |-> "num", s |-> ts[i].s], i + 1) ELSE Fail
    [] Kind(ts, i) = 97 -> IF ts[i].s \in Literals THEN Good([t |-> "lit", s |-> ts[i].s], i + 1) ELSE Fail
    [] Kind(ts, i) = 91 -> IF Kind(ts, i + 1) = 93 THEN Good([t |-> "arr", v |-> <<>>], i + 2) ELSE Elements(ts, i + 1, <<>>)
    [] Kind(ts, i) = 123 -> IF Kind(ts, i + 1) = 125 THEN Good([t |-> "obj", k |-> <<>>, v |-> <<>>], i + 2) ELSE Members(ts, i + 1, <<>>, <<>>)
    [] OTHER -> Fail
Elements(ts, i, vs) ==
  LET x == ValueAt(ts, i)
  IN IF ~x.ok THEN Fail
     ELSE CASE Kind(ts, x.i) = 44 -> Elements(ts, x.i + 1, Append(vs, x.v))
            [] Kind(ts, x.i) = 93 -> Good([t |-> "arr", v |-> Append(vs, x.v)], x.i + 1)
            [] OTHER -> Fail
Members(ts, i, ks, vs) ==
  IF Kind(ts, i) # 34 \/ Kind(ts, i + 1) # 58 THEN Fail
  ELSE LET x == ValueAt(ts, i + 2)
           k2 == Append(ks, ts[i].s)
       IN IF ~x.ok THEN Fail
          ELSE CASE Kind(ts, x.i) = 44 -> Members(ts, x.i + 1, k2, Append(vs, x.v))
                 [] Kind(ts, x.i) = 125 -> Good([t |-> "obj", k |-> k2, v |-> Append(vs, x.v)], x.i + 1)
                 [] OTHER -> Fail

(* the denotation of a text, or [t |-> "bad"]                                            *)
Denote(s) ==
  LET l == Lex(s)
  IN IF l.bad \/ l.m # "out" \/ ~ValidUtf8(s) THEN [t |-> "bad"]
     ELSE LET x == ValueAt(l.toks, 1) IN IF x.ok /\ x.i = Len(l.toks) + 1 THEN x.v ELSE [t |-> "bad"]

(* a member; two of the same name leave its value open                                    *)
Member(o, k) ==
  IF o.t # "obj" THEN [t |-> "none"]
  ELSE LET is == { i \in 1..Len(o.k) : o.k[i] = k }
       IN IF Cardinality(is) # 1 THEN [t |-> "none"] ELSE o.v[CHOOSE i \in is : TRUE]
=============================================================================
