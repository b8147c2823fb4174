---------------------------- MODULE RecordLoop ------------------------------
(***************************************************************************)
(* A checker of recorded observations: one state per record, in chunks so  *)
(* that TLC's workers share them.  A record the specification does not     *)
(* allow is printed.  The driver compares the number of distinct states    *)
(* with the number of records, so that none goes unjudged.                 *)
(*                                                                         *)
(* Verdict: "ok", "reject" (the code is wrong), or "spec" (generator and   *)
(* specification disagree about the input, which is a fault of ours).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Recs, Verdict(_)
CHUNK == 32
VARIABLE recno
Init == recno \in { k \in 1..Len(Recs) : k % CHUNK = 1 }
Next == recno % CHUNK # 0 /\ recno < Len(Recs) /\ recno' = recno + 1
Judged == LET v == Verdict(Recs[recno]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"VERDICT", recno, v>>)
=============================================================================
