------------------------------ MODULE CheckTx -------------------------------
(* Recorded serialisations of transactions against TxJson.tla.               *)
EXTENDS TxJson, Json, IOUtils

OK(r) ==
  /\ r.ok                                            \* every way to serialise succeeds
  /\ \A k \in 1..Len(r.out) : IsTransaction(Denote(r.out[k]), r.tran)
(* A statement has no rows, rows have no SQL, the cells of a row are what a row holds. *)
Meant(r) == \A k \in 1..Len(r.tran.ev) : LET e == r.tran.ev[k] IN e.sql = <<>> \/ (e.rv = <<>> /\ e.ri = <<>>)
Verdict(r) == IF ~Meant(r) THEN "spec" ELSE IF OK(r) THEN "ok" ELSE "reject"

Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE recno
INSTANCE RecordLoop
=============================================================================
