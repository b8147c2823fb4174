----------------------------- MODULE CheckCells -----------------------------
(***************************************************************************)
(* Recorded decodings of single cells against Cells.tla.                   *)
(*  cell : CellBytes(d, i-1, t, m, u) = (out, n), cellLength = len; l is   *)
(*         the number of bytes that were encoded                           *)
(*  packed: the same of a long cell, d and out given as repeating pieces    *)
(*  block: the texts of 256 integers that differ in their lowest byte, as  *)
(*         a hash (and in full where a hash failed)                        *)
(***************************************************************************)
EXTENDS Cells, Json, IOUtils

Mod == 8355967
HashText(h, t) == FoldLeft(LAMBDA a, c : ((a * 251) + c + 1) % Mod, ((h * 251) + Len(t) + 1) % Mod, t)

BlockText(r, lo) == CellText(r.t, 0, <<lo>> \o r.hi, r.u, 0)
Lows == [k \in 1..256 |-> k - 1]
BlockOK(r) ==
  /\ r.ok
  /\ r.full => \A lo \in 0..255 : r.outs[lo + 1] = BlockText(r, lo)
  /\ FoldLeft(LAMBDA h, lo : HashText(h, BlockText(r, lo)), 0, Lows) = r.h

CellVerdict(r) ==
  IF CellLen(r.t, r.m, r.d, r.i) # r.l THEN "spec"
  ELSE IF /\ r.ok /\ r.lok /\ r.intact
          /\ r.n = r.l /\ r.len = r.l
          /\ ~r.nil
          /\ CellMatch(r.t, r.m, Cut(r.d, r.i, r.l), r.u, r.off, r.out)
       THEN "ok" ELSE "reject"

Verdict(r) ==
  CASE r.kind = "block" -> IF BlockOK(r) THEN "ok" ELSE "reject"
    [] r.kind = "packed" -> CellVerdict([r EXCEPT !.d = Unpack(@), !.out = Unpack(@)])
    [] OTHER -> CellVerdict(r)

Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE recno
INSTANCE RecordLoop
=============================================================================
