----------------------------- MODULE CheckEvents ----------------------------
(***************************************************************************)
(* Recorded decodings of single events against Events.tla.                 *)
(*  gate    : IsValid of any bytes, and the header of what passes           *)
(*  format, header, rotate, query, intvar, rand, xid: an event e, in the    *)
(*            format that the event fd announces, with or without checksum  *)
(*  map     : TableID and TableMap of a table map                           *)
(*  rows    : TableID and Rows of a rows event over the table map tm, and   *)
(*            what the cell decoder (and the length rule) consume of it     *)
(*  bitmap  : bits set and cleared in a bitmap                              *)
(*  packed  : the same of a long event, given as repeating pieces           *)
(***************************************************************************)
EXTENDS Binlog, Json, IOUtils

(* ---- headers ------------------------------------------------------------- *)
Kinds(t, maria) ==
  <<t = EFormat, t = EQuery, t = EXid, t = IF maria THEN EMariaGtid ELSE EGtid, t = ERotate, t = EIntVar, t = ERand,
    t = EPrevGtids, t = ERowsQuery, t = ETableMap, t \in WriteTypes, t \in UpdateTypes, t \in DeleteTypes, FALSE>>
Opt(x, v) == x = <<>> \/ x = v          \* an accessor that may be out of reach
HeaderOK(e, h, maria) ==
  /\ h.ok
  /\ h.ts = EvTime(e)
  /\ h.next = Pad8(EvNext(e))
  /\ h.is = Kinds(EvType(e), maria)
  /\ Opt(h.ty, <<EvType(e)>>)
  /\ Opt(h.fl, <<LE16(e, 18)>>)
  /\ Opt(h.sv, EvServer(e))
  /\ Opt(h.ln, EvLength(e))

GateOK(r) ==
  /\ r.ok /\ r.intact
  /\ r.valid = IsValid(r.e)
  /\ r.valid => HeaderOK(r.e, r.h, r.maria)

(* ---- control events -------------------------------------------------------- *)
FormatOK(r) ==
  LET f == FormatOf(r.fd)
  IN /\ r.version = f.version /\ r.server = f.server /\ r.hl = f.hl /\ r.alg = f.alg
     /\ r.sizes = f.sizes
     /\ r.size = [i \in 1..Len(f.sizes) |-> SizeOf(f, i)]

StripRight(r, f) ==
  /\ r.strip = Strip(r.e, f)
  /\ r.sum = ChecksumOf(r.e, f)
  /\ r.nosum = (ChecksumOf(r.e, f) = <<>>)
  /\ LET h == r.h2 IN [h EXCEPT !.ln = <<>>] = [r.h EXCEPT !.ln = <<>>]

BodyOK(r, f) ==
  LET e == Strip(r.e, f)
  IN CASE r.kind = "rotate" -> LET x == RotateOf(e, f) IN r.file = x.file /\ r.off = x.off
       [] r.kind = "query" -> LET q == QueryOf(e, f) IN r.db = q.db /\ r.sql = q.sql /\ r.cs = q.cs
       [] r.kind = "intvar" -> LET v == IntVarOf(e, f) IN r.id = v.id /\ r.val = v.val
       [] r.kind = "rand" -> LET v == RandOf(e, f) IN r.s1 = v.s1 /\ r.s2 = v.s2
       [] OTHER -> TRUE

ControlOK(r) ==
  /\ r.ok /\ r.intact
  /\ HeaderOK(r.e, r.h, r.maria)
  /\ IF r.kind = "format" THEN FormatOK(r)
     ELSE LET f == FormatOf(r.fd) IN StripRight(r, f) /\ BodyOK(r, f)

(* is the input what it is meant to be                                          *)
ControlMeant(r) ==
  /\ IsValid(r.fd) /\ EvType(r.fd) = EFormat /\ FormatOf(r.fd).ok /\ IsValid(r.e)
  /\ LET f == FormatOf(r.fd)
         e == Strip(r.e, f)
     IN CASE r.kind = "query" -> EvType(e) = EQuery /\ QueryDecodable(Body(e, f)) /\ QueryOf(e, f).ok
          [] r.kind = "rotate" -> EvType(e) = ERotate /\ RotateDecodable(Body(e, f))
          [] r.kind = "intvar" -> EvType(e) = EIntVar /\ IntVarOf(e, f).ok
          [] r.kind = "rand" -> EvType(e) = ERand /\ Len(Body(e, f)) = 16
          [] OTHER -> TRUE

(* ---- table maps ---------------------------------------------------------------- *)
MapOK(r) ==
  LET f == FormatOf(r.fd)
      t == TableMapOf(r.e, f)
  IN /\ r.ok /\ r.intact
     /\ r.id = Pad8(PadId(TableIdOf(r.e, f)))
     /\ r.flags = t.flags /\ r.db = t.db /\ r.tb = t.tb
     /\ r.types = t.types /\ r.meta = t.meta /\ r.nulls = t.canNull
MapMeant(r) == LET f == FormatOf(r.fd) IN IsValid(r.e) /\ EvType(r.e) = ETableMap /\ TableMapDecodable(r.e, f)

(* ---- rows ------------------------------------------------------------------------ *)
(* the lengths of the cells of an image                                                *)
CellLens(im) ==
  FoldLeft(LAMBDA a, c : IF c.k = "val" THEN Append(a, <<c.l, c.l>>) ELSE a, <<>>, im.cells)
ImageIs(d, im, nulls, bytes, lens) ==
  /\ nulls = im.nulls
  /\ bytes = SubSeq(d, im.s, im.e - 1)
  /\ lens = CellLens(im)
RowsOK(r) ==
  LET f == FormatOf(r.fd)
      tm == TableMapOf(r.tm, f)
      d == Body(r.e, f)
      rs == RowsOf(r.e, f, tm)
  IN /\ r.ok /\ r.intact /\ r.walk
     /\ r.id = Pad8(PadId(TableIdOf(r.e, f)))
     /\ r.flags = rs.flags
     /\ r.idc = rs.idCols /\ r.dc = rs.dataCols
     /\ r.sums = <<BoolCount(rs.idCols), BoolCount(rs.dataCols)>>
     /\ Len(r.rows) = Len(rs.rows)
     /\ \A i \in 1..Len(rs.rows) :
          LET x == r.rows[i]
              y == rs.rows[i]
          IN /\ IF rs.hasId THEN ImageIs(d, y.id, x.ni, x.id, x.wi) ELSE x.ni = <<>> /\ x.id = <<>> /\ x.wi = <<>>
             /\ IF rs.hasData THEN ImageIs(d, y.data, x.nd, x.da, x.wd) ELSE x.nd = <<>> /\ x.da = <<>> /\ x.wd = <<>>
RowsMeant(r) ==
  LET f == FormatOf(r.fd)
      tm == TableMapOf(r.tm, f)
  IN /\ IsValid(r.e) /\ TableMapDecodable(r.tm, f) /\ RowsDecodable(r.e, f, tm)
     /\ Len(RowsOf(r.e, f, tm).rows) = r.n

(* ---- bitmaps ------------------------------------------------------------------------ *)
BitmapOK(r) ==
  LET b == FoldLeft(LAMBDA a, o : [a EXCEPT ![o[1] + 1] = (o[2] = 1)], [i \in 1..r.n |-> FALSE], r.ops)
  IN r.ok /\ r.count = r.n /\ r.bits = b /\ r.sum = BoolCount(b)

RowsVerdict(r) == IF ~RowsMeant(r) THEN "spec" ELSE IF RowsOK(r) THEN "ok" ELSE "reject"
Loose(r) == [r EXCEPT !.e = Unpack(@), !.rows = [i \in 1..Len(@) |-> [@[i] EXCEPT !.id = Unpack(@), !.da = Unpack(@)]]]

Verdict(r) ==
  CASE r.kind = "gate" -> IF GateOK(r) THEN "ok" ELSE "reject"
    [] r.kind = "map" -> IF ~MapMeant(r) THEN "spec" ELSE IF MapOK(r) THEN "ok" ELSE "reject"
    [] r.kind = "bitmap" -> IF BitmapOK(r) THEN "ok" ELSE "reject"
    [] r.kind = "rows" -> RowsVerdict(r)
    [] r.kind = "packed" -> RowsVerdict(Loose(r))
    [] OTHER -> IF ~ControlMeant(r) THEN "spec" ELSE IF ControlOK(r) THEN "ok" ELSE "reject"

Recs == ndJsonDeserialize(IOEnv.RECS)
VARIABLE recno
INSTANCE RecordLoop
=============================================================================
