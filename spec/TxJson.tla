------------------------------- MODULE TxJson -------------------------------
(***************************************************************************)
(* The JSON form of a transaction.                                         *)
(* A transaction is [nf, no, xf, xo, ev]: two positions (file name, offset *)
(* of 8 bytes) and events [ty, db, tb, sql, rv, ri]; rows are sequences of *)
(* cells [n, t, e, z, d]: name, type, absent, NULL, data.                  *)
(***************************************************************************)
EXTENDS JsonText

TypeNames ==
  (0 :> "Decimal") @@ (1 :> "Tiny") @@ (2 :> "Short") @@ (3 :> "Long") @@ (4 :> "Float") @@ (5 :> "Double") @@ (6 :> "Null") @@
  (7 :> "Timestamp") @@ (8 :> "LongLong") @@ (9 :> "Int24") @@ (10 :> "Date") @@ (11 :> "Time") @@ (12 :> "DateTime") @@
  (13 :> "Year") @@ (14 :> "NewDate") @@ (15 :> "Varchar") @@ (16 :> "Bit") @@ (17 :> "Timestamp2") @@ (18 :> "DateTime2") @@
  (19 :> "Time2") @@ (245 :> "JSON") @@ (246 :> "NewDecimal") @@ (247 :> "Enum") @@ (248 :> "Set") @@ (249 :> "TinyBlob") @@
  (250 :> "MediumBlob") @@ (251 :> "LongBlob") @@ (252 :> "Blob") @@ (253 :> "VarString") @@ (254 :> "String") @@ (255 :> "Geometry")
TypeName(t) == T(IF t \in DOMAIN TypeNames THEN TypeNames[t] ELSE "unknown")

KNow == T("nowPosition")     KNext == T("nextPosition")   KFile == T("filename")     KOffset == T("offset")
KEvents == T("events")       KName == T("name")           KDb == T("db")             KTable == T("table")
KType == T("type")           KSql == T("sql")             KValues == T("rowValues")  KIdents == T("rowIdentifies")
KColumns == T("Columns")     KField == T("filed")         KEmpty == T("isEmpty")     KData == T("data")
KTime == T("timestamp")
LNull == T("null")           LTrue == T("true")           LFalse == T("false")

(* Text that is no UTF-8 has no JSON form: any string will do.                          *)
IsText(v, s) == v.t = "str" /\ (ValidUtf8(s) => v.s = s)
IsNum(v, le) == v.t = "num" /\ v.s = UIntText(le)
IsNull(v) == v.t = "lit" /\ v.s = LNull
IsFlag(v, b) == v.t = "lit" /\ v.s = IF b THEN LTrue ELSE LFalse

IsPosition(v, file, off) == IsText(Member(v, KFile), file) /\ IsNum(Member(v, KOffset), off)
IsCell(v, c) ==
  /\ IsText(Member(v, KField), c.n)
  /\ IsText(Member(v, KType), TypeName(c.t))
  /\ IsFlag(Member(v, KEmpty), c.e)
  /\ IF c.z THEN IsNull(Member(v, KData)) ELSE IsText(Member(v, KData), c.d)
IsArray(v, s, Is(_, _)) ==
  IF s = <<>> THEN IsNull(v) \/ (v.t = "arr" /\ v.v = <<>>)
  ELSE v.t = "arr" /\ Len(v.v) = Len(s) /\ \A i \in 1..Len(s) : Is(v.v[i], s[i])
IsRow(v, r) == IsArray(Member(v, KColumns), r, IsCell)
IsEvent(v, e) ==
  /\ IsText(Member(v, KType), T(e.ty))
  /\ LET n == Member(v, KName) IN IsText(Member(n, KDb), e.db) /\ IsText(Member(n, KTable), e.tb)
  /\ Member(v, KTime).t = "str"
  /\ IF e.sql # <<>> THEN IsText(Member(v, KSql), e.sql)
     ELSE IsArray(Member(v, KValues), e.rv, IsRow) /\ IsArray(Member(v, KIdents), e.ri, IsRow)
IsTransaction(v, x) ==
  /\ IsPosition(Member(v, KNow), x.nf, x.no)
  /\ IsPosition(Member(v, KNext), x.xf, x.xo)
  /\ Member(v, KTime).t = "str"
  /\ IsArray(Member(v, KEvents), x.ev, IsEvent)
=============================================================================
