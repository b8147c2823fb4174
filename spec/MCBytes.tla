------------------------------ MODULE MCBytes ------------------------------
(* Lemmas about Bytes, evaluated by TLC. *)
EXTENDS Bytes
S2 == { <<a, b>> : a, b \in {0, 1, 7, 127, 128, 200, 255} }
ASSUME \A s \in S2 : BigOfLE(s) = Spill(LE16(s, 1))
ASSUME \A s \in S2 : UIntText(s) = IntText(LE16(s, 1))
ASSUME \A s \in S2 : SIntText(s) = IntText(IF s[2] >= 128 THEN LE16(s, 1) - 65536 ELSE LE16(s, 1))
ASSUME UIntText(<<255,255,255,255,255,255,255,255>>) = T("18446744073709551615")
ASSUME SIntText(<<0,0,0,0,0,0,0,128>>) = T("-9223372036854775808")
ASSUME SIntText(<<255,255,255,255,255,255,255,255>>) = T("-1")
ASSUME BigOfDigits(T("000123456789012345678901234567890")) = BigOfDigits(T("123456789012345678901234567890"))
ASSUME BigText(BigOfDigits(T("123456789012345678901234567890"))) = T("123456789012345678901234567890")
ASSUME BigText(BigMul(BigOfDigits(T("99999999999999999999")), BigOfDigits(T("99999999999999999999")))) = T("9999999999999999999800000000000000000001")
ASSUME BigText(BigShl(<<1>>, 100)) = T("1267650600228229401496703205376")
ASSUME BigText(BigShl10(BigOfDigits(T("12345")), 9)) = T("12345000000000")
ASSUME BigCmp(BigOfDigits(T("12345")), BigOfDigits(T("12346"))) = -1
ASSUME IntPad(7, 2) = T("07") /\ IntPad(123, 2) = T("123")
ASSUME T("Az~ ") = <<65, 122, 126, 32>>
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
