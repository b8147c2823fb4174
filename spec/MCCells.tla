------------------------------ MODULE MCCells -------------------------------
(* Lemmas about cells: known values, evaluated by TLC. *)
EXTENDS Cells
ASSUME TimestampText(0, 1, 0) = T("1970-01-01 00:00:01")
ASSUME TimestampText(65535, 65535, 0) = T("2106-02-07 06:28:15")
ASSUME TimestampText(0, 0, -3600) = T("1969-12-31 23:00:00")
ASSUME TimestampText(21693, 35968, 19800) = T("2015-01-20 04:30:16")
ASSUME DecimalText(14, 4, <<129, 13, 251, 56, 210, 4, 210>>) = T("1234567890.1234")
ASSUME DecimalText(14, 4, <<126, 242, 4, 199, 45, 251, 45>>) = T("-1234567890.1234")
ASSUME DecimalText(5, 0, <<128, 0, 0>>) = T("0")
ASSUME DecimalText(3, 3, <<128, 5>>) = T("0.005")
ASSUME Time2Text(<<127, 255, 255, 255>>, 2) = T("-00:00:00.01")
ASSUME Time2Text(<<127, 255, 254>>, 0) = T("-00:00:02")
ASSUME TimeOldText(<<255, 255, 255>>) = T("-00:00:01")
ASSUME DateTime2Text(<<153, 149, 30, 23, 146>>, 0) = T("2015-01-15 01:30:18")
ASSUME DateTimeOldText(<<9, 0, 0, 0, 0, 0, 0, 0>>) = T("0000-00-00 00:00:09")
ASSUME FloatMatch(<<0, 0, 128, 63>>, T("1"), FALSE)
ASSUME FloatMatch(<<205, 204, 204, 61>>, T("0.1"), FALSE)
ASSUME ~FloatMatch(<<205, 204, 204, 61>>, T("0.1000001"), FALSE)
ASSUME FloatMatch(<<205, 204, 204, 61>>, T("0.100000001490116"), FALSE)
ASSUME ~FloatMatch(<<206, 204, 204, 61>>, T("0.1"), FALSE)
ASSUME ~FloatMatch(<<0, 0, 128, 191>>, T("1"), FALSE)
ASSUME FloatMatch(<<0, 0, 0, 128>>, T("-0"), FALSE)
ASSUME ~FloatMatch(<<0, 0, 128, 63>>, T("1E+00"), FALSE)
ASSUME FloatMatch(<<110, 134, 27, 240, 249, 33, 9, 64>>, T("3.14159E+00"), TRUE)
ASSUME ~FloatMatch(<<110, 134, 27, 240, 249, 33, 9, 64>>, T("3.1415E+00"), TRUE)
ASSUME FloatMatch(<<1, 0, 0, 0, 0, 0, 0, 0>>, T("5E-324"), TRUE)
ASSUME ~FloatMatch(<<1, 0, 0, 0, 0, 0, 0, 0>>, T("8E-324"), TRUE)
ASSUME FloatMatch(<<255, 255, 255, 255, 255, 255, 239, 127>>, T("1.7976931348623157E+308"), TRUE)
ASSUME JsonMatch(<<0, 1, 0, 29, 0, 11, 0, 4, 0, 0, 15, 0, 97, 115, 100, 102, 1, 0, 14, 0, 11, 0, 3, 0, 5, 123, 0, 102, 111, 111>>,
                 T("JSON_OBJECT('asdf',JSON_OBJECT('foo',123))"))
ASSUME JsonMatch(<<2, 3, 0, 37, 0, 12, 13, 0, 2, 18, 0, 12, 33, 0, 4, 104, 101, 114, 101, 2, 0, 15, 0, 12, 10, 0, 12, 12, 0, 1, 73, 2, 97, 109, 3, 33, 33, 33>>,
                 T("JSON_ARRAY('here',JSON_ARRAY('I','am'),'!!!')"))
ASSUME JsonMatch(<<15, 12, 8, 0, 0, 0, 25, 118, 31, 149, 25>>, T("CAST(CAST('2015-01-15 23:24:25' AS DATETIME(6)) AS JSON)"))
ASSUME JsonMatch(<<15, 11, 8, 192, 212, 1, 25, 118, 1, 0, 0>>, T("CAST(CAST('23:24:25.120000' AS TIME(6)) AS JSON)"))
ASSUME JsonMatch(<<15, 10, 8, 0, 0, 0, 0, 0, 30, 149, 25>>, T("CAST(CAST('2015-01-15' AS DATE) AS JSON)"))
ASSUME JsonMatch(<<15, 246, 8, 13, 4, 135, 91, 205, 21, 4, 210>>, T("CAST(CAST('123456789.1234' AS DECIMAL(13,4)) AS JSON)"))
ASSUME JsonMatch(<<12, 3, 39, 92, 34>>, T("'\"\\'\\\\\\\\\\\\\"\"'"))
ASSUME JsonMatch(<<4, 0>>, T("'null'"))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
