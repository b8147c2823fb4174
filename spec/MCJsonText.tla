----------------------------- MODULE MCJsonText -----------------------------
(* Lemmas about JSON texts: known denotations, and texts that are none.        *)
EXTENDS JsonText
D(s) == Denote(T(s))
Str(s) == [t |-> "str", s |-> T(s)]
Nul == [t |-> "lit", s |-> T("null")]
IsBad(s) == D(s).t = "bad"
ASSUME D(" null ") = Nul
ASSUME D("\"a\"") = Str("a")
ASSUME D("[]") = [t |-> "arr", v |-> <<>>]
ASSUME D("{}") = [t |-> "obj", k |-> <<>>, v |-> <<>>]
ASSUME D("[1, -2.5e+10,\"\" ]").v = <<[t |-> "num", s |-> T("1")], [t |-> "num", s |-> T("-2.5e+10")], Str("")>>
ASSUME D("{\"a\":{\"b\":[null]},\"c\":true}") =
  [t |-> "obj", k |-> <<T("a"), T("c")>>,
   v |-> <<[t |-> "obj", k |-> <<T("b")>>, v |-> <<[t |-> "arr", v |-> <<Nul>>]>>], [t |-> "lit", s |-> T("true")]>>]
ASSUME D("\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"").s = <<34, 92, 47, 8, 12, 10, 13, 9>>
ASSUME D("\"\\u0041\\u00e9\\u20AC\\ud83d\\ude00\"").s = <<65, 195, 169, 226, 130, 172, 240, 159, 152, 128>>
ASSUME D("\"\\ud83dx\\ude00\"").s = Replacement \o <<120>> \o Replacement
ASSUME Denote(<<34, 195, 169, 34>>).s = <<195, 169>>
ASSUME Denote(<<34, 195, 34>>).t = "bad"
ASSUME Denote(<<34, 10, 34>>).t = "bad"
ASSUME \A s \in {"", "[", "]", "[1", "[1,]", "[,1]", "{\"a\"}", "{\"a\":1,}", "{a:1}", "{\"a\" 1}", "01", "-", "1.", ".5", "1e", "+1", "nul", "nulll",
                 "True", "\"", "\"a", "\"\\x\"", "\"\\u12\"", "\"\\u12g4\"", "1 2", "[1 2]", "'a'", "{\"a\":1 \"b\":2}", "NaN"} : IsBad(s)
ASSUME \A s \in {"0", "-0", "10", "0.5", "1E5", "1e-5", "true", "false", "[[[]]]", "[{}]"} : ~IsBad(s)
ASSUME Member(D("{\"a\":1,\"a\":2}"), T("a")).t = "none"
ASSUME ValidUtf8(<<>>) /\ ValidUtf8(<<237, 159, 191>>) /\ ValidUtf8(<<238, 128, 128>>) /\ ValidUtf8(<<244, 143, 191, 191>>)
ASSUME \A s \in {<<128>>, <<192, 128>>, <<193, 191>>, <<224, 159, 191>>, <<237, 160, 128>>, <<240, 143, 191, 191>>, <<244, 144, 128, 128>>,
                 <<245, 128, 128, 128>>, <<226, 130>>, <<255>>} : ~ValidUtf8(s)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
